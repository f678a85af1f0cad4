SPECIFICATION Spec
VIEW View
CONSTANTS
  Setup = "BB"
  EmitEdges = TRUE
INVARIANTS WellFormed SavedLoads SaveOnlyCompiled Deterministic
PROPERTIES Isolation FailedLoadKeeps
CHECK_DEADLOCK FALSE
