SPECIFICATION Spec
CONSTANTS
  Syms <- MCSyms
  MaxLen = 5
  Anything = FALSE
  Lite = FALSE
  Export = FALSE
INVARIANTS Refines Restored NoVirama NoSigns ExportDone
