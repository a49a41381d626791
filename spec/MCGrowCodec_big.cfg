SPECIFICATION Spec
CONSTANTS
  Merges = 3
  MaxText = 3
  Keep = FALSE
  Export = TRUE
INVARIANTS TreeIsTable SameSegments ExportDone
PROPERTIES Ends
