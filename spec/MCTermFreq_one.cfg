SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxFiles = 2
  MaxLines = 1
  MaxWords = 2
  NParts = 1
  Export = TRUE
  TagIsWord = FALSE
INVARIANTS Exact ExportDone
PROPERTIES Ends
