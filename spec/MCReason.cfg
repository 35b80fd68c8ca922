SPECIFICATION Spec
CONSTANTS Depth = 6
 MaxCx = 3
 Emit = FALSE
VIEW View
INVARIANTS InvStamps InvOne InvTv InvIdx InvConf
PROPERTIES QMono SidMono
CHECK_DEADLOCK FALSE
