SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Patched = TRUE
  Vals <- ValsThorough
INVARIANTS Clones Nested Answering
PROPERTY Updates
CHECK_DEADLOCK FALSE
