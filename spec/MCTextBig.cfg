SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS ParseWrite Whole WritableU
CHECK_DEADLOCK FALSE
