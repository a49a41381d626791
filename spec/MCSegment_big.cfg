SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 98, 9601}
  MaxPiece = 2
  MaxVocab = 4
  MaxText = 5
  Export = FALSE
INVARIANTS Refines Progress Spells ExportDone
