SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Forget = ""
INVARIANTS LawFinds LawBounds LawFree
PROPERTY LawBuilt
CHECK_DEADLOCK FALSE
