SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 63, 128, 192, 255}
  Chars = {65, 66, 47, 43, 61, 45, 122}
  MaxB = 5
  MaxC = 6
INVARIANTS LawEncode LawLength LawInverse LawAccept LawDecode LawCanonical Out
CHECK_DEADLOCK FALSE
