SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  Exported = {"a"}
  MaxList = 2
  Shapes = {"pair"}
  Holes = {"blk", "if", "if1", "loop", "loop1", "while", "while1", "for", "for1"}
  MaxEvents = 3
  MaxDepth = 4
  Sim = FALSE
INVARIANTS Counted Earlier EmitCase
CHECK_DEADLOCK FALSE
