SPECIFICATION Spec
CONSTANTS
  Sim = FALSE
  MaxSteps = 2
  MaxArg = 3
  Legal = {"a", "my-app"}
  Illegal = {"1x"}
  Unclear = {}
  Extras = {}
INVARIANTS Whole Once Under EmitCase
PROPERTIES NeverLost
CHECK_DEADLOCK FALSE
