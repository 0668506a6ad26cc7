SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NCalls = 1
 NMut = 0
 Scope = "call"
 Guard = FALSE
 Reads = FALSE
INVARIANTS LawAlone LawNoRace 

CHECK_DEADLOCK FALSE
