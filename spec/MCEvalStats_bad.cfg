SPECIFICATION Spec
CONSTANTS
  Syms = {6, 7}
  MaxLen = 2
  MaxPairs = 1
  MaxNg = 1
  Export = FALSE
  Swap = TRUE
INVARIANTS RecallExact PrecExact FreqExact Mass UnitR SameIsOne ExportDone
