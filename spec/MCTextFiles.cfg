SPECIFICATION Spec
CONSTANTS
  Bs <- MCBs
  MaxLen = 2
  MaxWrites = 2
  Universal = FALSE
  Export = TRUE
INVARIANTS Refines Whole OneFeed ExportDone
