SPECIFICATION Spec
CONSTANTS
  Way = "fy"
  Blocks <- B312
INVARIANTS Legal Count
POSTCONDITION AllCome
