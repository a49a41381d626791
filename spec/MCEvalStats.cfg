SPECIFICATION Spec
CONSTANTS
  Syms = {6, 7}
  MaxLen = 2
  MaxPairs = 2
  MaxNg = 2
  Export = TRUE
  Swap = FALSE
INVARIANTS RecallExact PrecExact FreqExact Mass UnitR SameIsOne ExportDone
