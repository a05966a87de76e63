SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Calls = 4
INVARIANTS RoundTrip Sizes EmitCase
CHECK_DEADLOCK FALSE
