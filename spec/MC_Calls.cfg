SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxDepth = 2
  MaxHands = 2
INVARIANTS Snapshots Arguments
CHECK_DEADLOCK FALSE
