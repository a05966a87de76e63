SPECIFICATION Spec
CONSTANTS
  Bases = {2, 8, 10, 16}
  MaxWalk = 1
  Shapes = {}
INVARIANTS EmitCase Arith Digits Order
CHECK_DEADLOCK FALSE
