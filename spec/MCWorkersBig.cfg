SPECIFICATION Spec
CONSTANT Variant = "ok"
CONSTANT Cap = 2
INVARIANTS Exclusive Released Free Found
PROPERTIES MainGoesOn Processed
