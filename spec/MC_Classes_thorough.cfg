SPECIFICATION Spec
CONSTANTS
  MaxClasses = 3
  Mems <- MemsThorough
INVARIANTS Once Inherited Enforced Reached
CHECK_DEADLOCK FALSE
