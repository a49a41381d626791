SPECIFICATION Spec
CONSTANTS
  Alpha = {6, 7}
  MaxLen = 5
  MaxWords = 2
  Freqs = {1, 2}
  Merges = 3
  Export = TRUE
INVARIANTS TextPreserved NeverStuck CountsAgree NoLeft ExportInit
PROPERTIES Shrinks BestFalls
