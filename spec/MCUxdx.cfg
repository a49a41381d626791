SPECIFICATION Spec
CONSTANTS
  Syms <- MCSyms
  MaxLen = 4
  Export = TRUE
  Consume = FALSE
INVARIANTS Refines Reversible NoMarker Separated Idempotent ExportDone
