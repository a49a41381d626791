SPECIFICATION Spec
CONSTANTS
  Alpha = {1, 2}
  MaxLen = 3
  MaxSeqs = 1
  NMerges = 1
  Export = FALSE
  Sloppy = TRUE
INVARIANTS UniExact LensExact Linked IxExact ExportDone
