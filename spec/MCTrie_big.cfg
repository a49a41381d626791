SPECIFICATION Spec
CONSTANTS
  Syms = {1, 2}
  MaxKey = 3
  MaxOps = 3
  Export = FALSE
  Careless = FALSE
INVARIANTS Refines Closed DataHasNode ExportDone
