SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Cap = 2
  Export = TRUE
  SkipBlank = FALSE
INVARIANTS InOrder OneEach ExportDone
PROPERTIES Ends
