SPECIFICATION Spec
CONSTANTS
  Prop = "C18"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Selecting Export
CHECK_DEADLOCK FALSE
