SPECIFICATION Spec
CONSTANTS
  MaxParams = 3
  MaxLayers = 3
  MaxPos = 2
  MaxKw = 2
INVARIANTS Sound Nothing Defaults Grows OneByOne AppliedStays
CONSTRAINT Constr
CHECK_DEADLOCK FALSE
