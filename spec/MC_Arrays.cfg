SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Things = 3
  Shapes <- ShapesQuick
INVARIANTS Within Injective Copies Twice PutSeen
CHECK_DEADLOCK FALSE
