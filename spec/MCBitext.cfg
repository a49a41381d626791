SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxLen = 3
  NParts = 2
  Export = FALSE
INVARIANTS Paired Whole OneEach Limits ExportDone
PROPERTIES Ends
