SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Forget = ""
INVARIANTS LawFinds LawBounds LawFree
PROPERTY LawBuilt
CHECK_DEADLOCK FALSE
