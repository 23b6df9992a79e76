SPECIFICATION Spec
CONSTANTS
  Prop = "C26"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS  Export
CHECK_DEADLOCK FALSE
