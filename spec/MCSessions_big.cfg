SPECIFICATION Spec
CONSTANTS
  Codecs = {1, 2}
  Args = {1, 2, 3}
  Steps = 4
  Cap = 2
  Alias = FALSE
  SharedMemo = FALSE
  Export = TRUE
INVARIANTS Alone ExportDone
