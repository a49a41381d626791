SPECIFICATION ResumeSpec
CONSTANTS
  Alpha = {6, 7}
  MaxLen = 5
  MaxWords = 1
  Freqs = {1, 2}
  Merges = 4
  Pauses = 3
  Stale = FALSE
  Export = TRUE
INVARIANTS ListsAreCorpus UniExact HeapExact IxExact UniSane ExportDone
PROPERTIES Terminates
