SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Things = 4
  Shapes <- ShapesThorough
INVARIANTS Within Injective Copies Twice PutSeen
CHECK_DEADLOCK FALSE
