SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
INVARIANTS NeverHalfWay Monotonic Late Collecting Polite
CHECK_DEADLOCK FALSE
