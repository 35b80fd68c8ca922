SPECIFICATION Spec
CONSTANT Cs = {c1, c2}
CONSTANT Cap = 2
CONSTANT MaxLines = 3
CONSTANT Sizes = {0, 2}
CONSTANT Variant = "ok"
PROPERTIES Refines
CHECK_DEADLOCK FALSE
