SPECIFICATION Spec
CONSTANTS
  Kind = "coll"
  Sim = FALSE
  MaxOps = 3
  MaxLen = 4
  Sevs = {1, 2, 4}
  Msgs = {1, 2}
INVARIANTS NothingLost SortedAfterSort Partition WalkOk Injective EmitTables EmitCase
CHECK_DEADLOCK FALSE
