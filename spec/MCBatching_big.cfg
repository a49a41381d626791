SPECIFICATION Spec
CONSTANTS
  MaxRecs = 4
  MaxLen = 2
  MaxToks = 7
  Sents = {1, 2, 99}
  Export = TRUE
INVARIANTS NonEmpty Within Once Whole Error Raises Ranges ExportDone
PROPERTIES Ends
