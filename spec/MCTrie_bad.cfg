SPECIFICATION Spec
CONSTANTS
  Syms = {1, 2}
  MaxKey = 2
  MaxOps = 2
  Export = FALSE
  Careless = TRUE
INVARIANTS Refines Closed DataHasNode ExportDone
