SPECIFICATION Spec
CONSTANTS
  MaxEvents = 26
  MaxDepth = 8
  MaxFns = 3
  Sim = TRUE
  Simple = {"let", "const", "expr", "ret", "brk", "cont"}
  Opens = {"blk", "loop", "while", "for", "if"}
INVARIANTS OutsideOK MissingOK BrkOK EmitCase
CHECK_DEADLOCK FALSE
