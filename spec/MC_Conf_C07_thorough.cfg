SPECIFICATION Spec
CONSTANTS
  Prop = "C07"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Addressed Less Export
CHECK_DEADLOCK FALSE
