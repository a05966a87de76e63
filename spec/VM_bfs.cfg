SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxExec = 3
  Values = {0, 1, 65535, 65536, 1073741824, 2147483646}
  Cuts = {1000}
INVARIANTS Sound Continuous EmitCase
CHECK_DEADLOCK FALSE
