SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", "0"}
  MaxLen = 4
  Sim = TRUE
INVARIANTS MaximalMunch Tiling EmitCase
CHECK_DEADLOCK FALSE
