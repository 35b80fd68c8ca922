SPECIFICATION Spec
INVARIANTS SubSelf CxPos CountSub Repl OpEnc
CHECK_DEADLOCK FALSE
