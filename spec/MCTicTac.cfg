SPECIFICATION Spec
INVARIANTS Alternate OneWinner Ended CanMove
PROPERTIES Stay Once
CHECK_DEADLOCK FALSE
