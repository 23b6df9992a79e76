SPECIFICATION Spec
CONSTANTS
  Prop = "C09"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Equality Export
CHECK_DEADLOCK FALSE
