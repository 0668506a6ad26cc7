------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 Base64 with padding, on sequences of bytes.                      *)
EXTENDS Integers, Sequences

B64Char(k) == CASE k <= 25 -> 65 + k [] k >= 26 /\ k <= 51 -> 97 + (k - 26) [] k >= 52 /\ k <= 61 -> 48 + (k - 52) [] k = 62 -> 43 [] OTHER -> 47
\* value of a character, 64 if it is not in the alphabet
B64Val(c) == CASE c >= 65 /\ c <= 90 -> c - 65 [] c >= 97 /\ c <= 122 -> c - 71 [] c >= 48 /\ c <= 57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 64
B64Pad == 61

EncGroup(g) ==
  CASE Len(g) = 3 -> <<B64Char(g[1] \div 4), B64Char((g[1] % 4) * 16 + g[2] \div 16), B64Char((g[2] % 16) * 4 + g[3] \div 64), B64Char(g[3] % 64)>>
    [] Len(g) = 2 -> <<B64Char(g[1] \div 4), B64Char((g[1] % 4) * 16 + g[2] \div 16), B64Char((g[2] % 16) * 4), B64Pad>>
    [] Len(g) = 1 -> <<B64Char(g[1] \div 4), B64Char((g[1] % 4) * 16), B64Pad, B64Pad>>

\* closed form: output character i of the encoding of b
Encode(b) ==
  LET n == Len(b) groups == (n + 2) \div 3
  IN [i \in 1 .. 4 * groups |->
        LET g == (i - 1) \div 4  k == ((i - 1) % 4) + 1
        IN EncGroup(SubSeq(b, 3 * g + 1, IF 3 * g + 3 > n THEN n ELSE 3 * g + 3))[k]]

PadCount(s) == IF s = <<>> THEN 0 ELSE IF s[Len(s)] # B64Pad THEN 0 ELSE IF s[Len(s) - 1] # B64Pad THEN 1 ELSE 2

WellFormed(s) ==
  /\ Len(s) % 4 = 0
  /\ \A i \in 1 .. Len(s) - PadCount(s) : B64Val(s[i]) < 64

\* precondition: WellFormed(s)
DecLen(s) == 3 * (Len(s) \div 4) - PadCount(s)
V0(c) == IF c = B64Pad THEN 0 ELSE B64Val(c)
Decode(s) ==
  [i \in 1 .. DecLen(s) |->
     LET g == 4 * ((i - 1) \div 3)  k == (i - 1) % 3
     IN CASE k = 0 -> V0(s[g + 1]) * 4 + V0(s[g + 2]) \div 16
          [] k = 1 -> (V0(s[g + 2]) % 16) * 16 + V0(s[g + 3]) \div 4
          [] OTHER -> (V0(s[g + 3]) % 4) * 64 + V0(s[g + 4])]
=============================================================================
