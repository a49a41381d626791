SPECIFICATION Spec
CONSTANTS
  Ids = {10, 97, 127, 128, 160, 191, 194, 224, 225, 237, 240, 244, 255, 256, 257}
  MaxIds = 3
  Chars = {0, 9, 97, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111}
  MaxText = 2
  Export = TRUE
INVARIANTS Refines Lossless Valid UndisturbedAtStart ExportDone
