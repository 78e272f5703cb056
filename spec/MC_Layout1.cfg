CONSTANTS
  Bases = "1d"
  MaxOps = 3
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS InBuffer Once Involutions Replays
