SPECIFICATION Spec
CONSTANTS
  MaxDim = 4
  MaxDegree = 6
  MaxLen = 4
INVARIANTS Valid Usable Tight
CHECK_DEADLOCK FALSE
