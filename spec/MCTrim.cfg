SPECIFICATION Spec
CONSTANTS
  MaxTypes = 4
  MaxFreq = 4
  Covs <- MCCovs
  MinFreqs = {0, 1, 2, 3}
  Sizes <- MCSizes
  Export = TRUE
INVARIANTS Accounted SizeBound Refines ExportDone
