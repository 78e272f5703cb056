CONSTANTS
  V = 2
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Linear Derivative PointValues TitleTight Lines DegLines OneEach LastTitle
PROPERTIES Grows
