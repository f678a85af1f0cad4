SPECIFICATION Spec
CONSTANTS
  Setup = "NN"
  Shared = TRUE
  Emit = FALSE
INVARIANTS Independent
