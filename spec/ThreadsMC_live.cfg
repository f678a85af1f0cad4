SPECIFICATION Fair
CONSTANTS
  Setup = "NN"
  Shared = FALSE
  Emit = FALSE
INVARIANTS Independent Clean
PROPERTIES Terminates
