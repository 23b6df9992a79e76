SPECIFICATION Spec
CONSTANTS
  Prop = "C01"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Canonical Prefixed SubIds Export
CHECK_DEADLOCK FALSE
