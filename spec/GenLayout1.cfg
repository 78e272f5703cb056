CONSTANTS
  Bases = "1d"
  MaxOps = 3
  Gen = TRUE
SPECIFICATION Spec
INVARIANTS Emit
