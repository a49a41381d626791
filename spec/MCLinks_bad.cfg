SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxOps = 4
  Export = FALSE
  OneSided = TRUE
INVARIANTS Refines ExportDone
