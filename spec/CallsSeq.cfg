SPECIFICATION Spec
CONSTANTS Threads = {1}
 NCalls = 2
 NMut = 1
 Scope = "call"
 Guard = TRUE
 Reads = TRUE
INVARIANTS LawAlone LawNoRace Out
PROPERTY LawReturns
CHECK_DEADLOCK FALSE
