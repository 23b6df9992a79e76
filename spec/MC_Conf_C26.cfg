SPECIFICATION Spec
CONSTANTS
  Prop = "C26"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS  Export
CHECK_DEADLOCK FALSE
