SPECIFICATION Spec
CONSTANTS
  Names = {"x"}
  UseNames = {"x"}
  ExprKinds = {"num", "id"}
  MaxEvents = 4
  MaxDepth = 3
  MaxFns = 1
  TypeNames = {"felt"}
  TypeForms = {"plain"}
  Bares = {TRUE, FALSE}
  Sim = FALSE
INVARIANTS EnvOK NoForward Shadowing Accounted EmitCase
CHECK_DEADLOCK FALSE
