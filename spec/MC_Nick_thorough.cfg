SPECIFICATION Spec
CONSTANTS
  NNicks = 4
  NIds = 4
INVARIANTS AlwaysOneToOne Refused Again Undo
CHECK_DEADLOCK FALSE
