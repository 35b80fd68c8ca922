INIT Init
NEXT Next
CONSTANT Variant = "ok"
CONSTANT Cap = 1
INVARIANTS Exclusive Released Free
