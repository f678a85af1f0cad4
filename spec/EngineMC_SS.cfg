SPECIFICATION Spec
VIEW View
CONSTANTS
  Setup = "SS"
  EmitEdges = TRUE
INVARIANTS WellFormed SavedLoads SaveOnlyCompiled Deterministic
PROPERTIES Isolation FailedLoadKeeps
CHECK_DEADLOCK FALSE
