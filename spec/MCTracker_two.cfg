SPECIFICATION Spec
CONSTANTS
  Alpha = {1, 2}
  MaxLen = 3
  MaxSeqs = 2
  NMerges = 1
  Export = TRUE
  Sloppy = FALSE
INVARIANTS UniExact LensExact Linked IxExact ExportDone
