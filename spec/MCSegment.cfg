SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 9601}
  MaxPiece = 3
  MaxVocab = 4
  MaxText = 5
  Export = TRUE
INVARIANTS Refines Progress Spells ExportDone
