SPECIFICATION Spec
CONSTANTS
  MaxClasses = 3
  Mems <- MemsQuick
INVARIANTS Once Inherited Enforced Reached
CHECK_DEADLOCK FALSE
