SPECIFICATION Spec
CONSTANTS
  Prop = "C05"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Unseen Shown Export
CHECK_DEADLOCK FALSE
