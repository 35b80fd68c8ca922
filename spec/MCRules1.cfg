SPECIFICATION Spec
INVARIANTS Material KeepsConf RoundTrip
CHECK_DEADLOCK FALSE
