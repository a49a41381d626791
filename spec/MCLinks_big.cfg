SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxOps = 6
  Export = FALSE
  OneSided = FALSE
INVARIANTS Refines Mirror ExportDone
