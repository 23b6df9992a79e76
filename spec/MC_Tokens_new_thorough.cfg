SPECIFICATION Spec
CONSTANTS
  Old = FALSE
  Tokens <- NewMore
  Starts <- MoreStarts
  MaxTokens = 3
INVARIANTS Balanced Blank Stable Complete Export
CHECK_DEADLOCK FALSE
