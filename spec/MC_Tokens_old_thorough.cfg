SPECIFICATION Spec
CONSTANTS
  Old = TRUE
  Tokens <- OldTokens
  Starts <- OldStarts
  MaxTokens = 4
INVARIANTS Balanced Blank Stable Complete Export
CHECK_DEADLOCK FALSE
