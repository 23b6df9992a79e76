SPECIFICATION Spec
CONSTANTS
  Prop = "C01"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Canonical Prefixed SubIds Export
CHECK_DEADLOCK FALSE
