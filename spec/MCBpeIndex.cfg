SPECIFICATION Spec
CONSTANTS
  Alpha = {6, 7}
  MaxLen = 7
  MaxWords = 1
  Freqs = {1, 2}
  Merges = 4
INVARIANTS ListsAreCorpus UniExact HeapExact
PROPERTIES Terminates
