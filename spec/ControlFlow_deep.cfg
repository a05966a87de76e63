SPECIFICATION Spec
CONSTANTS
  MaxEvents = 7
  MaxDepth = 4
  MaxFns = 1
  Sim = FALSE
  Simple = {"expr", "ret", "brk"}
  Opens = {"blk", "loop", "if"}
INVARIANTS OutsideOK MissingOK BrkOK EmitCase
CHECK_DEADLOCK FALSE
