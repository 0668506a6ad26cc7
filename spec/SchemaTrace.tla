----------------------------- MODULE SchemaTrace -----------------------------
(* Conformance of the generated schemas.  SCHEMAS holds the documents the     *)
(* library generated (a sequence of documents); events are                    *)
(*   [op |-> "s", t, ok, x]      a schema was generated for type t, it is x    *)
(*   [op |-> "d", t, x, j, ex]   document j; ex: it was written for a value    *)
(*      [t, v] without repeated shared objects                                *)
EXTENDS Schema
Events == ndJsonDeserialize(IOEnv.EVENTS)
Schemas == JsonDeserialize(IOEnv.SCHEMAS)
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k
VARIABLE i
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i
BadS(e) ==
  IF ~e.ok THEN {"schema"}
  ELSE LET s == Schemas[e.x] IN (IF RefsResolve(s) THEN {} ELSE {"refs"}) \cup (IF Describes(s, e.t) THEN {} ELSE {"describes"})
BadD(e) ==
  LET s == Schemas[e.x]  c == Conf(s, e.j) IN
  (IF e.w /\ ~HasPtrSet(e.t, {}) /\ ~RepeatsShared(e.t, e.v) /\ Representable(e.t, e.v) /\ ~c THEN {"conforms"} ELSE {})
  \cup (IF ~e.w /\ ~HasRef(e.j) /\ ((Fits(e.t, e.j, TRUE) /\ ~c) \/ (c /\ ~Fits(e.t, e.j, FALSE))) THEN {"admits"} ELSE {})
BadX(e) == IF e.op = "dead" THEN {"dead"} ELSE IF e.op = "s" THEN BadS(e) ELSE BadD(e)
Allowed == LET b == BadX(Events[i]) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
