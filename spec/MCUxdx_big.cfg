SPECIFICATION Spec
CONSTANTS
  Syms <- MCSyms
  MaxLen = 6
  Export = FALSE
  Consume = FALSE
INVARIANTS Refines Reversible NoMarker Separated Idempotent ExportDone
