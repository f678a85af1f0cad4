SPECIFICATION Spec
VIEW View
CONSTANTS
  Setup = "SB"
  EmitEdges = TRUE
INVARIANTS WellFormed SavedLoads SaveOnlyCompiled Deterministic
PROPERTIES Isolation FailedLoadKeeps
CHECK_DEADLOCK FALSE
