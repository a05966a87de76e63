SPECIFICATION Spec
CONSTANTS
  Atoms = {"7", "true"}
  Junk = {"x"}
  Len1 = 6
INVARIANTS Closed EmitCase
CHECK_DEADLOCK FALSE
