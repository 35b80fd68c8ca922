INIT Init
NEXT Next
CONSTANT Variant = "recursive"
CONSTANT Cap = 1
INVARIANTS Exclusive Released Found
CHECK_DEADLOCK FALSE
