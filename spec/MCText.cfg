SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS ParseWrite Whole WritableU
CHECK_DEADLOCK FALSE
