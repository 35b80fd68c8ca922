SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS Material Symmetric Conf DedSound
CHECK_DEADLOCK FALSE
