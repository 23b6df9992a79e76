SPECIFICATION Spec
CONSTANTS
  MaxThreads = 2
  MaxOps = 1
  Cuts = 2
  Kinds = {"roundtrip", "parse", "reject", "old"}
  Chains = FALSE
INVARIANTS Orderly Progress OneChain Quiet
CHECK_DEADLOCK FALSE
