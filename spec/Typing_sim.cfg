SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  MaxToks = 60
  Kinds = {"bin","un","cast","call","mem","idx","tix","tup","arr","lit","new"}
  Contexts = {"let","ann","assign","return","cond","pat","carr"}
  Sim = TRUE
  Few = FALSE
  Modes = {"good","bad"}
  Wraps = {"none","block","then","else","elif","loop","while","for","deep","barethen"}
INVARIANTS EmitCase Sound InText OneError GoodIsGood
CHECK_DEADLOCK FALSE
