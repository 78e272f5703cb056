SPECIFICATION Spec
CONSTANTS
  Names = {"fp1d", "white", "ou", "harmonic", "overdamped", "langevinF", "langevinB", "gle0", "gle1", "gle2"}
INVARIANTS Mass Constants Stationary Involution Order2 Continuity
CHECK_DEADLOCK FALSE
