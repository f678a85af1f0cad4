SPECIFICATION Spec
CONSTANTS
  Chunk = 32
  Mem = 112
  Depth = 3
  Emit = TRUE
INVARIANTS Conforms InChunk BlocksInChunks
CHECK_DEADLOCK FALSE
