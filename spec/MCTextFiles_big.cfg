SPECIFICATION Spec
CONSTANTS
  Bs <- MCBs
  MaxLen = 3
  MaxWrites = 2
  Universal = FALSE
  Export = FALSE
INVARIANTS Refines Whole OneFeed ExportDone
