SPECIFICATION Spec
CONSTANTS
  MaxL = 3
  MaxRows = 2
  Export = TRUE
INVARIANTS MaskFaithful Imaged Refused Accepts Again ExportDone
PROPERTIES Ends
