SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxBlocks = 18
  Titles = {1, 6, 9, 10, 11}
  Fills = {1, 2, 3, 5, 6, 7, 8, 9}
  Cfgs = {1, 2, 3, 7}
  Strays = FALSE
INVARIANTS Complete OwnSection OwnRust NoRustTwice Unique EmitCase
CHECK_DEADLOCK FALSE
