SPECIFICATION Spec
CONSTANT SX = 24
CONSTANT SY = 10
CONSTANT BW = 3
INVARIANTS OnField BatRange Ends PerceptExact
CHECK_DEADLOCK FALSE
