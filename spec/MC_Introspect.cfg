SPECIFICATION Spec
CONSTANTS
  MaxClasses = 2
  MaxOps = 2
INVARIANTS Functional Monotone Assigned Trims
CHECK_DEADLOCK FALSE
