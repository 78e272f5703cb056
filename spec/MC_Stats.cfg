CONSTANTS
  Funs = {1, 2}
  MaxDepth = 3
  MaxLen = 9
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS Balanced Bounded Back
VIEW View
