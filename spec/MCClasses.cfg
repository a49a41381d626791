SPECIFICATION Spec
CONSTANTS
  LabelSeq <- MCLabels
  MaxLines = 4
  Export = TRUE
INVARIANTS Accepted OneToOne OrderFree ExportAll
