CONSTANTS
  Procs = {1, 2}
  Exprs = {1, 2}
  Calls = 2
  Len_ = 0
  Leftovers = TRUE
SPECIFICATION Spec
INVARIANTS Own Entries
PROPERTIES NeverWorse Reused Answers
