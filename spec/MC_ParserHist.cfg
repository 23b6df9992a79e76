SPECIFICATION Spec
CONSTANTS MaxOps = 3
CHECK_DEADLOCK FALSE
INVARIANTS Independent Isolated
