SPECIFICATION Spec
CONSTANTS
  Leaves = 2
  MaxComp = 2
  MaxCount = 2
  MaxMin = 3
  Export = TRUE
INVARIANTS Right SameWhole ExportDone
PROPERTIES Ends
