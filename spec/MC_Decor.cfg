SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxEnts = 6
  MaxHands = 2
INVARIANTS NeverReplaced Idempotent Independent Untouched Themselves Apart
CHECK_DEADLOCK FALSE
