CONSTANTS
  Keys = {1, 2, 3}
  Faults = TRUE
  Len_ = 24
INIT Init
NEXT Next
INVARIANTS Emit
