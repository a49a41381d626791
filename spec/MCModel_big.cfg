SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxDamage = 2
  Export = TRUE
INVARIANTS Exact UndamagedLoads MiddleMissing ExportDone
