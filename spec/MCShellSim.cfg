SPECIFICATION Spec
CONSTANTS Depth = 14 Dump = TRUE Short = FALSE
INVARIANTS Composes StopsAtQuit Repeats Dumped
CHECK_DEADLOCK FALSE
