SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2}
  Prios = {1, 2, 3}
  MaxOps = 5
  Export = FALSE
  Lazy = TRUE
INVARIANTS SameBag TopIsLargest ExportDone
