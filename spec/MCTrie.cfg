SPECIFICATION Spec
CONSTANTS
  Syms = {1, 2}
  MaxKey = 2
  MaxOps = 2
  Export = TRUE
  Careless = FALSE
INVARIANTS Refines Closed DataHasNode ExportDone
