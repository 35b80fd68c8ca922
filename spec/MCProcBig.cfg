SPECIFICATION Spec
CONSTANTS Depth = 10
 Samples = 2
 Emit = FALSE
VIEW View
INVARIANTS InvCounts InvOnce InvSources InvResolved InvDeadline InvGoals InvTvG
PROPERTIES OnTime NegOnlyByFail Purpose
CHECK_DEADLOCK FALSE
