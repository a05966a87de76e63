SPECIFICATION Spec
CONSTANTS
  Sim = TRUE
  MaxSteps = 12
  MaxArg = 3
  Legal = {"a", "b", "my-app", "my_app", "_u", "Z9", "cairo-m-template", "src"}
  Illegal = {"1x", "sp ace", "quote", "apos", "backslash", "dot.x", "tab", "newline", "{{name}}", "a#b", "-flag", "--", "comma,x", "bracket]"}
  Unclear = {"uni"}
  Extras = {"Cargo.toml", "cairom.toml", "tests", "README.md", ".gitignore", ".cargo"}
INVARIANTS Whole Once Under EmitCase
PROPERTIES NeverLost
CHECK_DEADLOCK FALSE
