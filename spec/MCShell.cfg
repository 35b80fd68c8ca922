SPECIFICATION Spec
CONSTANTS Depth = 4 Dump = FALSE Short = TRUE
INVARIANTS Composes StopsAtQuit Repeats
PROPERTY Frame
CHECK_DEADLOCK FALSE
