SPECIFICATION Spec
CONSTANTS
  Prop = "C05"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Unseen Shown Export
CHECK_DEADLOCK FALSE
