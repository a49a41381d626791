SPECIFICATION Spec
CONSTANTS
  Bs <- MCBs
  MaxLen = 2
  MaxWrites = 2
  Universal = TRUE
  Export = FALSE
INVARIANTS Refines Whole OneFeed ExportDone
