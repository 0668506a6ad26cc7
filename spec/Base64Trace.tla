----------------------------- MODULE Base64Trace -----------------------------
(* Conformance of calls of the encoder and decoder themselves.                *)
(*   [op: "enc"|"dec"|"dead", x: input, ok, y: output]                        *)
EXTENDS Base64, TLC, IOUtils, Json

Events == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k
VARIABLE i
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i
Bad(e) ==
  CASE e.op = "enc" -> IF e.ok /\ e.y = Encode(e.x) THEN {} ELSE {"enc"}
    [] e.op = "dec" -> IF WellFormed(e.x) THEN (IF e.ok /\ e.y = Decode(e.x) THEN {} ELSE {"dec"}) ELSE (IF e.ok THEN {"dec"} ELSE {})
    [] OTHER -> {"dead"}
Allowed == LET b == Bad(Events[i]) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
