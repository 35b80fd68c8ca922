SPECIFICATION Spec
CONSTANT Cells = 2
CONSTANT Vals = 2
CONSTANT MaxN = 2
CONSTANT MaxP = 3
INVARIANTS Counted Recognised InRange Decided
PROPERTY Kept
CHECK_DEADLOCK FALSE
