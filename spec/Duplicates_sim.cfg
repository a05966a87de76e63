SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c", "d", "_e"}
  Exported = {"a", "b", "c"}
  MaxList = 4
  Shapes = {"id", "pair", "three", "right", "left", "both", "deep"}
  Holes = {"blk", "if", "if1", "loop", "loop1", "while", "while1", "for", "for1"}
  MaxEvents = 18
  MaxDepth = 6
  Sim = TRUE
INVARIANTS Counted Earlier EmitCase
CHECK_DEADLOCK FALSE
