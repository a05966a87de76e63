SPECIFICATION Spec
CONSTANTS
  Mods = {"main", "a"}
  Names = {"f"}
  Kinds = {"fnF", "fnU"}
  Forms = {"callF"}
  MaxOps = 4
  MaxUses = 1
  Trackers = {1}
  BadOdds = 0
  Sim = FALSE
  Queries = {"q", "delta"}
INVARIANTS TrackerFresh DeltaAnswerOK ResolveOK EmitCase
CHECK_DEADLOCK FALSE
