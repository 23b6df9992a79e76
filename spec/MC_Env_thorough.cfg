SPECIFICATION Spec
CONSTANTS
  MaxProcs = 2
  States = {"ok", "missing"}
INVARIANTS Grounded Optional Apart Less
CHECK_DEADLOCK FALSE
