SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 4, 65535, 65536, 2147483646}
  MaxCode = 60
INVARIANTS Injective EmitCase
CHECK_DEADLOCK FALSE
