SPECIFICATION Spec
CONSTANTS Depth = 5
 Cap = 2
 Emit = FALSE
INVARIANTS InvStamps InvPooled InvBound InvFiled InvOne InvKept
CHECK_DEADLOCK FALSE
