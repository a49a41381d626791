SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxDamage = 1
  Export = TRUE
INVARIANTS Exact UndamagedLoads MiddleMissing ExportDone
