SPECIFICATION Spec
CONSTANTS
  Way = "naive"
  Blocks <- B3
INVARIANTS Legal Count
POSTCONDITION AllCome
