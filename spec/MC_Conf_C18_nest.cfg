SPECIFICATION Spec
CONSTANTS
  Prop = "C18"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Selecting Export
CHECK_DEADLOCK FALSE
