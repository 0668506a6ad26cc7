SPECIFICATION Spec
CONSTANTS Threads = {1}
 NCalls = 2
 NMut = 0
 Scope = "thread"
 Guard = TRUE
 Reads = TRUE
INVARIANTS LawAlone LawNoRace 

CHECK_DEADLOCK FALSE
