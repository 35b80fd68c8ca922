SPECIFICATION Spec
CONSTANTS Depth = 12
 MaxCx = 5
 Emit = TRUE
INVARIANTS InvStamps InvOne InvTv InvIdx InvConf
PROPERTIES QMono SidMono
CHECK_DEADLOCK FALSE
