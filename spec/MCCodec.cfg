SPECIFICATION Spec
CONSTANTS
  Chars = {97, 98, 233}
  Spaces = {32, 9}
  MaxLine = 4
  Export = TRUE
INVARIANTS RoundTrip Undisturbed ExportDone
