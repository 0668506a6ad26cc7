SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NCalls = 1
 NMut = 0
 Scope = "call"
 Guard = TRUE
 Reads = TRUE
INVARIANTS LawAlone LawNoRace Out
PROPERTY LawReturns
CHECK_DEADLOCK FALSE
