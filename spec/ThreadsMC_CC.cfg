SPECIFICATION Spec
CONSTANTS
  Setup = "CC"
  Shared = FALSE
  Emit = TRUE
INVARIANTS Independent Clean Report
CHECK_DEADLOCK TRUE
