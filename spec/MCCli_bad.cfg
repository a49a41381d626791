SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  Cap = 1
  Export = FALSE
  SkipBlank = TRUE
INVARIANTS OneEach
