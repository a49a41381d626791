SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxLen = 2
  NParts = 2
  Export = FALSE
INVARIANTS Paired Whole OneEach Limits ExportDone
PROPERTIES Ends
