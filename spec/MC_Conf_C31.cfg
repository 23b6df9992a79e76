SPECIFICATION Spec
CONSTANTS
  Prop = "C31"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Reproduced Export
CHECK_DEADLOCK FALSE
