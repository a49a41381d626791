SPECIFICATION Spec
CONSTANTS
  Way = "sattolo"
  Blocks <- B3
INVARIANTS Legal Count
POSTCONDITION AllCome
