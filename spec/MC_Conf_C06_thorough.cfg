SPECIFICATION Spec
CONSTANTS
  Prop = "C06"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS Bounded Positions Export
CHECK_DEADLOCK FALSE
