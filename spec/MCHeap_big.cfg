SPECIFICATION Spec
CONSTANTS
  Nodes = {1}
  Prios = {1, 2}
  MaxOps = 12
  Export = FALSE
  Lazy = FALSE
INVARIANTS SameBag TopIsLargest HeapOrder ExportDone
