SPECIFICATION Spec
CONSTANTS
  Prop = "C22"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Exported Keeps Export
CHECK_DEADLOCK FALSE
