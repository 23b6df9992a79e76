SPECIFICATION Spec
CONSTANTS
  Prop = "C06"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Bounded Positions Export
CHECK_DEADLOCK FALSE
