SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxFiles = 1
  MaxLines = 2
  MaxWords = 2
  NParts = 2
  Export = FALSE
  TagIsWord = FALSE
INVARIANTS Exact ExportDone
PROPERTIES Ends
