SPECIFICATION Spec
CONSTANTS
  Way = "once"
  Blocks <- B22
INVARIANTS Legal Count
POSTCONDITION AllCome
