SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS Material Symmetric Conf DedSound
CHECK_DEADLOCK FALSE
