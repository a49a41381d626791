SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2}
  Prios = {1, 2, 3}
  MaxOps = 4
  Export = TRUE
  Lazy = FALSE
INVARIANTS SameBag TopIsLargest HeapOrder ExportDone
