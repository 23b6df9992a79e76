SPECIFICATION Spec
CONSTANTS
  Prop = "C18"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 1
INVARIANTS Selecting Export
CHECK_DEADLOCK FALSE
