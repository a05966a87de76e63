SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxBlocks = 4
  Titles = {1, 6}
  Fills = {1}
  Cfgs = {1}
  Strays = FALSE
INVARIANTS Complete OwnSection OwnRust NoRustTwice Unique EmitCase
CHECK_DEADLOCK FALSE
