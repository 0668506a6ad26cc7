SPECIFICATION Spec
CONSTANTS Threads = {1}
 NCalls = 2
 NMut = 1
 Scope = "memo"
 Guard = TRUE
 Reads = FALSE
INVARIANTS LawAlone LawNoRace 

CHECK_DEADLOCK FALSE
