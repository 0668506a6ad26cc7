-------------------------------- MODULE Trace --------------------------------
(* Conformance of recorded behaviour: the events of a run of the library are  *)
(* replayed as steps of this specification, and each must be one the          *)
(* specification allows.  The events are dealt to several initial states so   *)
(* that TLC's workers share the work; within a stretch they are replayed in   *)
(* order.                                                                     *)
EXTENDS Judge

Events == ndJsonDeserialize(IOEnv.EVENTS)
Facets == LET x == JsonDeserialize(IOEnv.FACETS) IN {x[i] : i \in 1 .. Len(x)}
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k

\* deeply nested documents and values are recorded as tables, children before parents
RECURSIVE DocOf(_, _)
DocOf(tab, k) ==
  LET n == tab[k] IN
  CASE n.t = "arr" -> [n EXCEPT !.av = [q \in 1 .. Len(n.av) |-> DocOf(tab, n.av[q])]]
    [] n.t = "obj" -> [n EXCEPT !.ov = [q \in 1 .. Len(n.ov) |-> [n.ov[q] EXCEPT !.n = DocOf(tab, n.ov[q].n)]]]
    [] OTHER -> n
RECURSIVE ValOf(_, _)
ValOf(tab, k) == IF tab[k].q THEN [q \in 1 .. Len(tab[k].s) |-> ValOf(tab, tab[k].s[q])] ELSE tab[k].s
Unfold(e) ==
  IF "fl" \in DOMAIN e
  THEN [e EXCEPT !.j = DocOf(e.j, Len(e.j)), !.vals = [q \in 1 .. Len(e.vals) |-> ValOf(e.vals[q], Len(e.vals[q]))], !.in = ValOf(e.in, Len(e.in)),
                 !.docs = [q \in 1 .. Len(e.docs) |-> [e.docs[q] EXCEPT !.n = DocOf(e.docs[q].n, Len(e.docs[q].n))]]]
  ELSE e

VARIABLE i
vars == <<i>>
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_vars

\* every event that is not allowed is reported; the driver fails the check if there is any
Allowed == LET b == Bad(Unfold(Events[i]), Facets) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
