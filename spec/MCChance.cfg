SPECIFICATION Spec
CONSTANTS
  Way = "fy"
  Blocks <- B22
INVARIANTS Legal Count
POSTCONDITION AllCome
