SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxSteps = 16
  MaxDepth = 5
  DirNames = {"src", "a", "b", "app", "dcm", "hid", "quote", "uni"}
  FileNames = {"main", "lib", "x", "quote", "space", "dots", "src", "txt", "bak", "CM", "cm", "hidcm"}
  Entries <- SimEntries
  BadKinds = {"syntax", "noname", "noentry", "type", "empty", "utf8", "dir", "twice"}
INVARIANTS Closed Nearest Distinct Inherit EmitCase
CHECK_DEADLOCK FALSE
