SPECIFICATION Spec
CONSTANTS
  Cap = 4
  Mem = 256
  MaxOps = 7
  Classes <- McClasses
INVARIANTS LawInBounds LawAligned LawDisjoint LawNext LawReturn Out
CHECK_DEADLOCK FALSE
