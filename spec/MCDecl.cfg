SPECIFICATION Spec
CONSTANTS Depth = 3
 Cap = 2
 Emit = TRUE
INVARIANTS InvStamps InvPooled InvBound InvFiled InvOne InvKept
CHECK_DEADLOCK FALSE
