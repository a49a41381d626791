SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxFiles = 1
  MaxLines = 1
  MaxWords = 1
  NParts = 1
  Export = FALSE
  TagIsWord = TRUE
INVARIANTS Exact ExportDone

