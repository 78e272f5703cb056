SPECIFICATION Spec
CONSTANTS
  MaxDim = 3
  MaxDegree = 4
  MaxLen = 3
INVARIANTS Valid Usable Tight
CHECK_DEADLOCK FALSE
