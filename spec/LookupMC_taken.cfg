SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Forget = "taken"
INVARIANTS LawFinds LawBounds LawFree
PROPERTY LawBuilt
CHECK_DEADLOCK FALSE
