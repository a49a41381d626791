SPECIFICATION Spec
CONSTANTS
  Syms <- MCSyms
  MaxLen = 4
  Anything = FALSE
  Lite = TRUE
  Export = TRUE
INVARIANTS Refines Restored NoVirama NoSigns ExportDone
