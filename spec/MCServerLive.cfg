SPECIFICATION Spec
CONSTANT Cs = {c1, c2}
CONSTANT Cap = 2
CONSTANT MaxLines = 2
CONSTANT Sizes = {0, 2}
CONSTANT Variant = "ok"
PROPERTIES Delivered TakenUp
CHECK_DEADLOCK FALSE
