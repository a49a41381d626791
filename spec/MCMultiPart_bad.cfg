SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  MaxAtt = 2
  FlagFirst = FALSE
  Crashes = TRUE
  Export = FALSE
INVARIANTS NeverPartial OnlyOldOrNew Durable Untouched WholeManifest ExportDone
PROPERTIES Ends
