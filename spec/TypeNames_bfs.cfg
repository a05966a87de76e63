SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B"}
  LibStructs = {"A"}
  Locals = {"p"}
  MaxList = 1
  MaxEvents = 2
  Sim = FALSE
INVARIANTS Broken Leaves EmitCase
CHECK_DEADLOCK FALSE
