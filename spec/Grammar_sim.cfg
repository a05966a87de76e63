SPECIFICATION Spec
CONSTANTS
  Mode = "derive"
  Fuel = 40
  Alphabet = {}
  Frame = "expr"
  MaxLen = 0
INVARIANTS ParseInvertsDerivation RangesOK EmitCase
CHECK_DEADLOCK FALSE
