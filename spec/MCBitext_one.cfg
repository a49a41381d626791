SPECIFICATION Spec
CONSTANTS
  MaxN = 1
  MaxLen = 3
  NParts = 2
  Export = TRUE
INVARIANTS Paired Whole OneEach Limits ExportDone
PROPERTIES Ends
