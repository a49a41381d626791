SPECIFICATION Spec
CONSTANTS
  MaxRecs = 3
  MaxLen = 2
  MaxToks = 5
  Sents = {1, 2, 99}
  Export = TRUE
INVARIANTS NonEmpty Within Once Whole Error Raises Ranges ExportDone
PROPERTIES Ends
