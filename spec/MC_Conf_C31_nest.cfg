SPECIFICATION Spec
CONSTANTS
  Prop = "C31"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Reproduced Export
CHECK_DEADLOCK FALSE
