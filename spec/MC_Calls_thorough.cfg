SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxDepth = 3
  MaxHands = 2
INVARIANTS Snapshots Arguments
CHECK_DEADLOCK FALSE
