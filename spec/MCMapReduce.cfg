SPECIFICATION Spec
CONSTANTS
  MaxN = 15
  Export = TRUE
INVARIANTS Kept Result EmptyIsError ExportDone
PROPERTIES Ends
