SPECIFICATION Spec
CONSTANTS
  Prop = "C31"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Reproduced Export
CHECK_DEADLOCK FALSE
