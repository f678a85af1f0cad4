SPECIFICATION Spec
CONSTANTS
  Setup = "NN"
  Shared = FALSE
  Emit = TRUE
INVARIANTS Independent Clean Report
CHECK_DEADLOCK TRUE
