SPECIFICATION Spec
CONSTANTS MaxOps = 3
Exts = {"str"}
CHECK_DEADLOCK FALSE
INVARIANTS UniqueIds Grows Isolated HasId FrozenIsCall
