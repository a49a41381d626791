SPECIFICATION Spec
CONSTANTS
  LabelSeq <- MCLabels
  MaxLines = 5
  Export = TRUE
INVARIANTS Accepted OneToOne OrderFree ExportAll
