SPECIFICATION Spec
CONSTANTS
  Alpha = {1, 2}
  MaxLen = 4
  MaxSeqs = 1
  NMerges = 2
  Export = TRUE
  Sloppy = FALSE
INVARIANTS UniExact LensExact Linked IxExact ExportDone
