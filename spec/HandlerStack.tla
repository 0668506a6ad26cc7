---------------------------- MODULE HandlerStack ----------------------------
(* The stack on which handlers of different classes are kept in one block of  *)
(* memory.  Model: every sequence of pushes (also of objects whose            *)
(* constructor fails) and pops up to a length, with a placement that bumps a  *)
(* pointer.  The judgement Allows of a recorded history does not prescribe    *)
(* the placement: objects must be aligned, disjoint and within bounds.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cap, Mem, MaxOps, Classes     \* Classes: sequence of [size, align]

VARIABLES h, live, next
vars == <<h, live, next>>
AlignUp(x, a) == ((x + a - 1) \div a) * a
Fits(n, off, c) == n < Cap /\ off + Classes[c].align + Classes[c].size < Mem
Init == h = <<>> /\ live = <<>> /\ next = 0
Push(c) ==
  /\ h' = Append(h, c)
  /\ IF Fits(Len(live), next, c)
     THEN LET o == AlignUp(next, Classes[c].align) IN live' = Append(live, [c |-> c, off |-> o]) /\ next' = o + Classes[c].size
     ELSE UNCHANGED <<live, next>>
\* a constructor that fails leaves everything as it was
PushFail(c) == h' = Append(h, 100 + c) /\ UNCHANGED <<live, next>>
PopOp ==
  /\ h' = Append(h, 0)
  /\ IF live = <<>> THEN UNCHANGED <<live, next>>
     ELSE live' = SubSeq(live, 1, Len(live) - 1) /\ next' = live[Len(live)].off
Next == Len(h) < MaxOps /\ (PopOp \/ \E c \in 1 .. Len(Classes) : Push(c) \/ PushFail(c))
Spec == Init /\ [][Next]_vars

End(f) == f.off + Classes[f.c].size
LawInBounds == Len(live) <= Cap /\ \A i \in 1 .. Len(live) : live[i].off >= 0 /\ End(live[i]) <= Mem
LawAligned == \A i \in 1 .. Len(live) : live[i].off % Classes[live[i].c].align = 0
LawDisjoint == \A i, k \in 1 .. Len(live) : i < k => End(live[i]) <= live[k].off
LawNext == \A i \in 1 .. Len(live) : End(live[i]) <= next
\* popping everything returns all memory
LawReturn == live = <<>> => next = 0
Out == Len(h) = MaxOps => PrintT("SEQ " \o ToJson(h))
=============================================================================
