SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  Rows <- RowsQuick
INVARIANTS Sorted Export
CHECK_DEADLOCK FALSE
