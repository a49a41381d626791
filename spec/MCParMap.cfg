SPECIFICATION Spec
CONSTANTS
  Items = 7
  Workers = 3
  Chunk = 2
  Export = TRUE
INVARIANTS PrefixInOrder ExportOrder
PROPERTIES Completes FailureSurfaces
