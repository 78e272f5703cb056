CONSTANTS
  N = 5
  A = 3
  KMax = 3
  PMax = 4
INIT Init
NEXT Next
INVARIANTS HermiteOk FourierOk GridsOk ProductOk
