SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxOps = 4
  Export = TRUE
  OneSided = FALSE
INVARIANTS Refines Mirror ExportDone
