SPECIFICATION Spec
CONSTANTS
  Kind = "coll"
  Sim = TRUE
  MaxOps = 12
  MaxLen = 40
  Sevs = {1, 2, 3, 4}
  Msgs = {1, 2, 3, 4, 5}
INVARIANTS NothingLost SortedAfterSort Partition WalkOk Injective EmitTables EmitCase
CHECK_DEADLOCK FALSE
