SPECIFICATION Spec
CONSTANT SX = 14
CONSTANT SY = 8
CONSTANT BW = 2
INVARIANTS OnField BatRange Ends PerceptExact
CHECK_DEADLOCK FALSE
