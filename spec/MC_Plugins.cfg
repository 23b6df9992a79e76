SPECIFICATION Spec
CONSTANTS
  New = {"c1", "c2", "string_plugin"}
  Dropped = {"c1", "c2", "string_plugin", "anyobject0x_plugin"}
  Anchors = {"default", "last", "c1", "string_plugin", "what_plugin"}
  MaxOps = 0
INVARIANTS Unique Subset OrderKept
PROPERTY RefusedUnchanged
CHECK_DEADLOCK FALSE
