SPECIFICATION Spec
CONSTANTS
  Alpha = {1, 2}
  MaxLen = 5
  MaxSeqs = 1
  NMerges = 3
  Export = FALSE
  Sloppy = FALSE
INVARIANTS UniExact LensExact Linked IxExact ExportDone
