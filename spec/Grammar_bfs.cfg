SPECIFICATION Spec
CONSTANTS
  Mode = "strings"
  Fuel = 0
  Alphabet = {"x", "+", "*", "==", "(", ")"}
  Frame = "expr"
  MaxLen = 4
INVARIANTS EmitCase
CHECK_DEADLOCK FALSE
