SPECIFICATION Spec
CONSTANTS
  Names = {"x", "y", "_u", "f2", "K"}
  UseNames = {"x", "y", "z", "_u", "f1", "f2", "f3", "g", "K"}
  ExprKinds = {"num","id","add","neg","par","call","mem","idx","tup","tix","arr","rep","lit","plit","cast","castT","castP","newP","newT","nest","anew","and","deep"}
  MaxEvents = 22
  MaxDepth = 6
  MaxFns = 3
  TypeNames = {"felt", "S", "P", "T"}
  TypeForms = {"plain","arr","tup","ptr","mix"}
  Bares = {TRUE, FALSE}
  Sim = TRUE
INVARIANTS EnvOK NoForward Shadowing Accounted EmitCase
CHECK_DEADLOCK FALSE
