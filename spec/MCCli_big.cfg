SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  Cap = 3
  Export = FALSE
  SkipBlank = FALSE
INVARIANTS InOrder OneEach ExportDone
PROPERTIES Ends
