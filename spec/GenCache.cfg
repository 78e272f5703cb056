CONSTANTS
  Keys = {1, 2, 3, 4}
  Faults = FALSE
  Len_ = 24
INIT Init
NEXT Next
INVARIANTS Emit
