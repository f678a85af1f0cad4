SPECIFICATION Spec
VIEW View
INVARIANTS Sane
PROPERTIES OneChanges EngineApart
CHECK_DEADLOCK FALSE
