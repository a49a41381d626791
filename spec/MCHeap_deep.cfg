SPECIFICATION Spec
CONSTANTS
  Nodes = {1}
  Prios = {1, 2, 3}
  MaxOps = 9
  Export = FALSE
  Lazy = FALSE
INVARIANTS SameBag TopIsLargest HeapOrder ExportDone
