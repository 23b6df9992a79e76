SPECIFICATION Spec
CONSTANTS
  Prop = "C09"
  Leaves <- LeavesQuick
  Nest = FALSE
  MaxParams = 2
INVARIANTS Equality Export
CHECK_DEADLOCK FALSE
