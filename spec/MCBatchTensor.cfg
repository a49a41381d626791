SPECIFICATION Spec
CONSTANTS
  MaxL = 2
  MaxRows = 2
  Export = TRUE
INVARIANTS MaskFaithful Imaged Refused Accepts Again ExportDone
PROPERTIES Ends
