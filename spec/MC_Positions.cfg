CONSTANTS
  Dirs = {0, 1}
  Means = {0, 1}
SPECIFICATION Spec
INVARIANTS Commutes Associates PartsBack Cancels Nested
