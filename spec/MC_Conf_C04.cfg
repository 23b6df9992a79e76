SPECIFICATION Spec
CONSTANTS
  Prop = "C04"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Injective Export
CHECK_DEADLOCK FALSE
