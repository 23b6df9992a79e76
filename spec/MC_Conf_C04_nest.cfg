SPECIFICATION Spec
CONSTANTS
  Prop = "C04"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Injective Export
CHECK_DEADLOCK FALSE
