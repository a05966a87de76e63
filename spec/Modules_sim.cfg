SPECIFICATION Spec
CONSTANTS
  Mods = {"main", "a", "b", "n::c"}
  Names = {"f", "g", "h"}
  Kinds = {"fnF", "fnU", "fnP", "fnPU", "stF", "stU", "coF", "coU", "coI"}
  Forms = {"callF", "callU", "callP", "callPU", "litF", "litU", "parmF", "parmU", "valF", "valU"}
  MaxOps = 16
  MaxUses = 4
  Trackers = {1, 2}
  BadOdds = 20
  Sim = TRUE
  Queries = {"q", "qm", "delta"}
INVARIANTS TrackerFresh DeltaAnswerOK ResolveOK EmitCase
CHECK_DEADLOCK FALSE
