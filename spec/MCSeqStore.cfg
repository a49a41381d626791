SPECIFICATION Spec
CONSTANTS
  Codes = {0, 2, 3, 4, 6, 8}
  MaxRecs = 2
  MaxLen = 2
  Bufs = {1, 3}
  Export = TRUE
INVARIANTS Exact InType RefusedRightly BuiltRightly ExportDone
PROPERTIES Ends
