SPECIFICATION Spec
CONSTANTS MaxOps = 2
Exts = {"str"}
CHECK_DEADLOCK FALSE
INVARIANTS UniqueIds Grows Isolated HasId FrozenIsCall
