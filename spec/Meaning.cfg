SPECIFICATION Spec
CONSTANTS
  Feats = {"call", "setvar", "loop", "bits", "const", "rec", "shadow", "assert", "cast"}
  NFns = 2
  Stmts = 5
  Deep = 3
INVARIANTS Typed EmitCase
CHECK_DEADLOCK FALSE
