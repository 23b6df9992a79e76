SPECIFICATION Spec
CONSTANTS
  Prop = "C06"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS Bounded Positions Export
CHECK_DEADLOCK FALSE
