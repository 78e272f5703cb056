CONSTANTS
  Bases = "3d"
  MaxOps = 2
  Gen = TRUE
SPECIFICATION Spec
INVARIANTS Emit
