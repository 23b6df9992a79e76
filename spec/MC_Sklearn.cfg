SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Patched = TRUE
  Vals <- ValsQuick
INVARIANTS Clones Nested Answering
PROPERTY Updates
CHECK_DEADLOCK FALSE
