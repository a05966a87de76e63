SPECIFICATION FSpec
CONSTANTS
  Mode = "derive"
  Fuel = 30
  Alphabet = {}
  Frame = "expr"
  MaxLen = 0
  MaxC = 4
  Widths = {0, 1, 12, 25, 40, 60, 100}
  Indents = {0, 1, 2, 4, 8}
INVARIANTS ParsesBack AttachKeepsSides SidesPartition EmitF
CHECK_DEADLOCK FALSE
