CONSTANTS
  Keys = {1, 2}
  Faults = TRUE
  Len_ = 0
SPECIFICATION Spec
INVARIANTS Right ErrorsAreDisagreements Served
PROPERTY Repairs
