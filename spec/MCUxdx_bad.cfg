SPECIFICATION Spec
CONSTANTS
  Syms <- MCSyms
  MaxLen = 4
  Export = FALSE
  Consume = TRUE
INVARIANTS Refines Reversible NoMarker Separated Idempotent ExportDone
