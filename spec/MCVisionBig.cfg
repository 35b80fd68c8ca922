SPECIFICATION Spec
CONSTANT Cells = 2
CONSTANT Vals = 3
CONSTANT MaxN = 3
CONSTANT MaxP = 3
INVARIANTS Counted Recognised InRange Decided
PROPERTY Kept
CHECK_DEADLOCK FALSE
