SPECIFICATION Spec
CONSTANTS Depth = 28
 Samples = 2
 Emit = TRUE
INVARIANTS InvCounts InvOnce InvSources InvResolved InvDeadline InvGoals InvTvG
PROPERTIES OnTime NegOnlyByFail Purpose
CHECK_DEADLOCK FALSE
