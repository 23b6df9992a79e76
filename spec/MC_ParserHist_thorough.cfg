SPECIFICATION Spec
CONSTANTS MaxOps = 4
CHECK_DEADLOCK FALSE
INVARIANTS Independent Isolated
