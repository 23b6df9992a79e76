SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  Rows <- RowsThorough
INVARIANTS Sorted Export
CHECK_DEADLOCK FALSE
