SPECIFICATION Spec
CONSTANTS
  Prop = "C02"
  Leaves <- LeavesThorough
  Nest = TRUE
  MaxParams = 1
INVARIANTS RoundTrip Complete Export
CHECK_DEADLOCK FALSE
