SPECIFICATION Spec
CONSTANTS Depth = 8
 MaxCx = 3
 Emit = FALSE
VIEW View
INVARIANTS InvStamps InvOne InvTv InvIdx InvConf
PROPERTIES QMono SidMono
CHECK_DEADLOCK FALSE
