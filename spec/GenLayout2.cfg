CONSTANTS
  Bases = "2d"
  MaxOps = 3
  Gen = TRUE
SPECIFICATION Spec
INVARIANTS Emit
