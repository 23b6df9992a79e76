SPECIFICATION Spec
CONSTANTS
  Prop = "C04"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Injective Export
CHECK_DEADLOCK FALSE
