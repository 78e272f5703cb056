CONSTANTS
  Dirs = {0, 1, 2}
  Means = {0}
SPECIFICATION Spec
INVARIANTS Commutes Associates PartsBack Cancels Nested
