SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NCalls = 1
 NMut = 0
 Scope = "static"
 Guard = TRUE
 Reads = FALSE
INVARIANTS LawAlone 

CHECK_DEADLOCK FALSE
