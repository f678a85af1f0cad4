SPECIFICATION Spec
CONSTANTS
  Setup = "BBBB"
  Shared = FALSE
  Emit = TRUE
INVARIANTS Independent Clean Report
CHECK_DEADLOCK TRUE
