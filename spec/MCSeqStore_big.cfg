SPECIFICATION Spec
CONSTANTS
  Codes = {0, 2, 3, 5, 8}
  MaxRecs = 3
  MaxLen = 2
  Bufs = {1, 2, 3}
  Export = TRUE
INVARIANTS Exact InType RefusedRightly BuiltRightly ExportDone
PROPERTIES Ends
