SPECIFICATION Spec
CONSTANTS
  Prop = "C09"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Equality Export
CHECK_DEADLOCK FALSE
