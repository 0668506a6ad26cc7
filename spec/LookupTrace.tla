----------------------------- MODULE LookupTrace -----------------------------
(* Conformance of the real lookup table.  An event is one table with the      *)
(* queries put to it: [dead, names, qs: sequence of [q, k]] with k the answer *)
(* (zero-based).  Each name is found at its own position; the answer to any   *)
(* other string is not prescribed.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json
Events == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k
VARIABLE i
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i
Bad(e) ==
  IF e.dead THEN {"dead"}
  ELSE IF \E k \in 1 .. Len(e.qs) : \E p \in 1 .. Len(e.names) : e.names[p] = e.qs[k].q /\ e.qs[k].k # p - 1 THEN {"lookup"} ELSE {}
Allowed == LET b == Bad(Events[i]) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
