SPECIFICATION Spec
CONSTANTS
  Merges = 2
  MaxText = 3
  Keep = FALSE
  Export = TRUE
INVARIANTS TreeIsTable SameSegments ExportDone
PROPERTIES Ends
