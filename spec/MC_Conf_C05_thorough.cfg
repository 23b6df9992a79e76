SPECIFICATION Spec
CONSTANTS
  Prop = "C05"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Unseen Shown Export
CHECK_DEADLOCK FALSE
