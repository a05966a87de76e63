SPECIFICATION Spec
CONSTANTS
  MaxSteps = 1
  MaxToks = 60
  Kinds = {"bin","un","cast","mem","idx","tix","new"}
  Contexts = {"let"}
  Sim = FALSE
  Few = TRUE
  Modes = {"bad"}
  Wraps = {"none"}
INVARIANTS EmitCase Sound InText OneError GoodIsGood
CHECK_DEADLOCK FALSE
