SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxExec = 40
  Values = {0, 1, 2, 3, 7, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 1000000, 1073741823, 1073741824, 2147418112, 2147483645, 2147483646}
  Cuts = {1, 2, 3, 5, 8, 1000}
INVARIANTS Sound Continuous EmitCase
CHECK_DEADLOCK FALSE
