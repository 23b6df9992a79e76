SPECIFICATION Spec
CONSTANTS
  Prop = "C22"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Exported Keeps Export
CHECK_DEADLOCK FALSE
