SPECIFICATION Spec
CONSTANTS
  Merges = 3
  MaxText = 3
  Keep = TRUE
  Export = FALSE
INVARIANTS TreeIsTable SameSegments ExportDone
