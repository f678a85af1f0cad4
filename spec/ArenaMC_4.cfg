SPECIFICATION Spec
CONSTANTS
  Chunk = 32
  Mem = 112
  Depth = 4
  Emit = FALSE
INVARIANTS Conforms InChunk BlocksInChunks
CHECK_DEADLOCK FALSE
