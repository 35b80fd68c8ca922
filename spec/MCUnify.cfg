SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Sound Complete SelfGround OneSided
CHECK_DEADLOCK FALSE
