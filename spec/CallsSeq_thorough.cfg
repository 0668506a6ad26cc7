SPECIFICATION Spec
CONSTANTS Threads = {1}
 NCalls = 3
 NMut = 1
 Scope = "call"
 Guard = TRUE
 Reads = TRUE
INVARIANTS LawAlone LawNoRace Out

CHECK_DEADLOCK FALSE
