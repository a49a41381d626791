SPECIFICATION Spec
CONSTANTS
  Codecs = {1, 2}
  Args = {1, 2}
  Steps = 4
  Cap = 2
  Alias = TRUE
  SharedMemo = FALSE
  Export = FALSE
INVARIANTS Alone ExportDone
