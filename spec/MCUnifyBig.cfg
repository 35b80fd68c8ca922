SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Sound Complete SelfGround OneSided
CHECK_DEADLOCK FALSE
