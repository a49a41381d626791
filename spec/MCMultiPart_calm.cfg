SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  MaxAtt = 3
  FlagFirst = TRUE
  Crashes = FALSE
  Export = TRUE
INVARIANTS NeverPartial OnlyOldOrNew Durable Untouched WholeManifest ExportDone
PROPERTIES Ends
