SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxFiles = 2
  MaxLines = 2
  MaxWords = 1
  NParts = 2
  Export = FALSE
  TagIsWord = FALSE
INVARIANTS Exact ExportDone
PROPERTIES Ends
