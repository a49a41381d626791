SPECIFICATION Spec
CONSTANTS
  Leaves = 2
  Merges = 3
  Export = TRUE
INVARIANTS Valid Member Decides AllHeads AllTails Preserved ExportDone
