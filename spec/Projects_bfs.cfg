SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxSteps = 4
  MaxDepth = 3
  DirNames = {"src", "a"}
  FileNames = {"main", "txt"}
  Entries <- BfsEntries
  BadKinds = {"syntax"}
INVARIANTS Closed Nearest Distinct Inherit EmitCase
CHECK_DEADLOCK FALSE
