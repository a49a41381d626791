SPECIFICATION ResumeSpec
CONSTANTS
  Alpha = {6, 7}
  MaxLen = 5
  MaxWords = 1
  Freqs = {1, 2}
  Merges = 4
  Pauses = 3
  Stale = TRUE
  Export = FALSE
INVARIANTS ListsAreCorpus UniExact HeapExact IxExact UniSane ExportDone
