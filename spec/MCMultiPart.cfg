SPECIFICATION Spec
CONSTANTS
  MaxParts = 2
  MaxAtt = 2
  FlagFirst = TRUE
  Crashes = TRUE
  Export = TRUE
INVARIANTS NeverPartial OnlyOldOrNew Durable Untouched WholeManifest ExportDone
PROPERTIES Ends
