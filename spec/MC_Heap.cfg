SPECIFICATION Spec
CONSTANTS
  MaxHands = 4
  MaxOps = 4
INVARIANTS Copies DeepIsolated SetOnCopy
CHECK_DEADLOCK FALSE
