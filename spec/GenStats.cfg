CONSTANTS
  Funs = {1, 2, 3, 4}
  MaxDepth = 5
  MaxLen = 40
  Gen = TRUE
INIT Init
NEXT Next
INVARIANTS Emit
