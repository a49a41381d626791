SPECIFICATION Spec
CONSTANTS
  Syms = {6, 7}
  MaxLen = 3
  MaxPairs = 2
  MaxNg = 3
  Export = FALSE
  Swap = FALSE
INVARIANTS RecallExact PrecExact FreqExact Mass UnitR SameIsOne ExportDone
