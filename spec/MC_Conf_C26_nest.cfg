SPECIFICATION Spec
CONSTANTS
  Prop = "C26"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS  Export
CHECK_DEADLOCK FALSE
