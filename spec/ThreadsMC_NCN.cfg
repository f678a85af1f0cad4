SPECIFICATION Spec
CONSTANTS
  Setup = "NCN"
  Shared = FALSE
  Emit = TRUE
INVARIANTS Independent Clean Report
CHECK_DEADLOCK TRUE
