----------------------------- MODULE SessionTrace -----------------------------
(* Conformance of histories with the law of module Calls: whatever was called *)
(* before or is being called by other threads, a call returns what it returns *)
(* alone.  An event is [k, r]: the call (its operation and arguments) and its *)
(* outcome, both numbered; ALONE gives the outcome of each call made by a     *)
(* process that makes no other.  r = 0: the call or the process died.         *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Events == ndJsonDeserialize(IOEnv.EVENTS)
Alone == JsonDeserialize(IOEnv.ALONE)
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k
VARIABLE i
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i
Why(e) == IF e.r = 0 THEN "dead" ELSE IF e.r # Alone[e.k] THEN "call" ELSE ""
Allowed == LET w == Why(Events[i]) IN w = "" \/ PrintT("VIOL " \o ToString(i) \o " {\"" \o w \o "\"}")
=============================================================================
