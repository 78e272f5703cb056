CONSTANTS
  Procs = {1, 2, 3}
  Exprs = {1, 2}
  Calls = 3
  Len_ = 16
  Leftovers = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
