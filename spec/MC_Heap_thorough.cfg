SPECIFICATION Spec
CONSTANTS
  MaxHands = 5
  MaxOps = 5
INVARIANTS Copies DeepIsolated SetOnCopy
CHECK_DEADLOCK FALSE
