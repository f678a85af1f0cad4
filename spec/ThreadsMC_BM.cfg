SPECIFICATION Spec
CONSTANTS
  Setup = "BM"
  Shared = FALSE
  Emit = TRUE
INVARIANTS Independent Clean Report
CHECK_DEADLOCK TRUE
