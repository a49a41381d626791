SPECIFICATION Spec
CONSTANTS
  Syms = {6, 7}
  MaxLen = 4
  MaxPairs = 1
  MaxNg = 3
  Export = FALSE
  Swap = FALSE
INVARIANTS RecallExact PrecExact FreqExact Mass UnitR SameIsOne ExportDone
