SPECIFICATION Spec
CONSTANTS
  MaxProcs = 1
  States = {"ok", "missing", "broken"}
INVARIANTS Grounded Optional Apart Less
CHECK_DEADLOCK FALSE
