SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B", "C", "D", "E", "F", "G", "H"}
  LibStructs = {"A", "D", "F"}
  Locals = {"p", "q", "zz"}
  MaxList = 3
  MaxEvents = 14
  Sim = TRUE
INVARIANTS Broken Leaves EmitCase
CHECK_DEADLOCK FALSE
