SPECIFICATION Spec
CONSTANTS
  Prop = "C02"
  Leaves <- LeavesThorough
  Nest = FALSE
  MaxParams = 2
INVARIANTS RoundTrip Complete Export
CHECK_DEADLOCK FALSE
