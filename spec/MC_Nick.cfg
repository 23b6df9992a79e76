SPECIFICATION Spec
CONSTANTS
  NNicks = 3
  NIds = 3
INVARIANTS AlwaysOneToOne Refused Again Undo
CHECK_DEADLOCK FALSE
