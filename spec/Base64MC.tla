------------------------------ MODULE Base64MC ------------------------------
(* The encoder and the decoder as machines that consume their input one unit  *)
(* at a time, related to the closed form of module Base64 in every state, for *)
(* every input up to a length over representative bytes and characters.       *)
(*   CONSTANTS Bytes, Chars, MaxB, MaxC                                       *)
EXTENDS Base64, TLC, Json
CONSTANTS Bytes, Chars, MaxB, MaxC

VARIABLE st
vars == <<st>>
\* encoder: in consumed, out complete characters, acc pending bits of which there are nb
E0 == [m |-> "enc", in |-> <<>>, out |-> <<>>, acc |-> 0, nb |-> 0]
EStep(s, b) ==
  LET a == s.acc * 256 + b  n == s.nb + 8
  IN IF n = 12 THEN [s EXCEPT !.in = Append(@, b), !.out = @ \o <<B64Char(a \div 64), B64Char(a % 64)>>, !.acc = 0, !.nb = 0]
     ELSE LET k == n - 6  p == IF k = 2 THEN 4 ELSE 16
          IN [s EXCEPT !.in = Append(@, b), !.out = Append(@, B64Char(a \div p)), !.acc = a % p, !.nb = k]
EFinish(s) == s.out \o (CASE s.nb = 0 -> <<>> [] s.nb = 2 -> <<B64Char(s.acc * 16), B64Pad, B64Pad>> [] OTHER -> <<B64Char(s.acc * 4), B64Pad>>)
\* decoder: pos in the group, pads seen, dead after a character that cannot be there
D0 == [m |-> "dec", in |-> <<>>, out |-> <<>>, acc |-> 0, nb |-> 0, pos |-> 0, pads |-> 0, dead |-> FALSE]
DStep(s, c) ==
  LET q == [s EXCEPT !.in = Append(@, c), !.pos = (@ + 1) % 4] IN
  IF s.dead THEN q
  ELSE IF s.pads > 0 THEN (IF c = B64Pad /\ s.pads = 1 /\ s.pos = 3 THEN [q EXCEPT !.pads = 2] ELSE [q EXCEPT !.dead = TRUE])
  ELSE IF c = B64Pad THEN (IF s.pos >= 2 THEN [q EXCEPT !.pads = 1] ELSE [q EXCEPT !.dead = TRUE])
  ELSE IF B64Val(c) > 63 THEN [q EXCEPT !.dead = TRUE]
  ELSE LET a == s.acc * 64 + B64Val(c)  n == s.nb + 6
       IN IF n < 8 THEN [q EXCEPT !.acc = a, !.nb = n]
          ELSE LET k == n - 8  p == CASE k = 0 -> 1 [] k = 2 -> 4 [] OTHER -> 16
               IN [q EXCEPT !.out = Append(@, a \div p), !.acc = a % p, !.nb = k]
DAccepts(s) == ~s.dead /\ s.pos = 0

Init == st \in {E0, D0}
Next == \/ st.m = "enc" /\ Len(st.in) < MaxB /\ \E b \in Bytes : st' = EStep(st, b)
        \/ st.m = "dec" /\ Len(st.in) < MaxC /\ \E c \in Chars : st' = DStep(st, c)
Spec == Init /\ [][Next]_vars

\* laws
LawEncode == st.m = "enc" => EFinish(st) = Encode(st.in)
LawLength == st.m = "enc" => Len(Encode(st.in)) = 4 * ((Len(st.in) + 2) \div 3)
LawInverse == st.m = "enc" => WellFormed(Encode(st.in)) /\ Decode(Encode(st.in)) = st.in
LawAccept == st.m = "dec" => (DAccepts(st) <=> WellFormed(st.in))
LawDecode == st.m = "dec" /\ DAccepts(st) => st.out = Decode(st.in)
LawCanonical == st.m = "dec" /\ WellFormed(st.in) => LET e == Encode(Decode(st.in)) IN
                  Len(e) = Len(st.in) /\ (Len(e) > 0 => SubSeq(e, 1, Len(e) - 4) = SubSeq(st.in, 1, Len(e) - 4) /\ PadCount(e) = PadCount(st.in))
Out == PrintT((IF st.m = "enc" THEN "ENC " ELSE "DEC ") \o ToJson(st.in))
=============================================================================
