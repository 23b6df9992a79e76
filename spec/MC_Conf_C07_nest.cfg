SPECIFICATION Spec
CONSTANTS
  Prop = "C07"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Addressed Less Export
CHECK_DEADLOCK FALSE
