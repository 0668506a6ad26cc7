SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 NCalls = 1
 NMut = 0
 Scope = "call"
 Guard = TRUE
 Reads = FALSE
INVARIANTS LawAlone LawNoRace Out

CHECK_DEADLOCK FALSE
