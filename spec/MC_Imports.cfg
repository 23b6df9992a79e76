SPECIFICATION Spec
CONSTANTS
  MaxOps = 1
INVARIANTS NeverHalfWay Monotonic Late Collecting Polite
CHECK_DEADLOCK FALSE
