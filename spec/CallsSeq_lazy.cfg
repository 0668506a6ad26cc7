SPECIFICATION Spec
CONSTANTS Threads = {1}
 NCalls = 2
 NMut = 1
 Scope = "lazy"
 Guard = TRUE
 Reads = TRUE
INVARIANTS LawAlone LawNoRace 

CHECK_DEADLOCK FALSE
