SPECIFICATION Spec
CONSTANTS
  MaxClasses = 2
  MaxOps = 3
INVARIANTS Functional Monotone Assigned Trims
CHECK_DEADLOCK FALSE
