SPECIFICATION Spec
CONSTANTS
  Syms <- MCSyms
  MaxLen = 2
  Anything = TRUE
  Lite = FALSE
  Export = FALSE
INVARIANTS Refines Restored NoVirama NoSigns ExportDone
