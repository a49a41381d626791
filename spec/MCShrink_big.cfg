SPECIFICATION Spec
CONSTANTS
  Leaves = 2
  MaxComp = 3
  MaxCount = 1
  MaxMin = 2
  Export = TRUE
INVARIANTS Right SameWhole ExportDone
PROPERTIES Ends
