SPECIFICATION Spec
CONSTANTS Depth = 5 Dump = FALSE Short = TRUE
INVARIANTS Composes StopsAtQuit Repeats
PROPERTY Frame
CHECK_DEADLOCK FALSE
