------------------------------- MODULE Lookup -------------------------------
(* The lookup table of member names: names fall into buckets by a first hash; *)
(* buckets with several names, largest first, look for a seed whose second    *)
(* hash puts all their names into free slots; single names take a free slot   *)
(* directly.  Hash functions are arbitrary: every assignment of names to      *)
(* buckets and every placement a seed may give is explored.  Two variants     *)
(* that forget something are negative controls.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, Forget      \* Forget: "" | "taken" | "order"

VARIABLES n, bucket, todo, place, direct, idx
vars == <<n, bucket, todo, place, direct, idx>>
Slots == 0 .. n - 1
In(b) == {k \in Slots : bucket[k] = b}
Size(b) == Cardinality(In(b))
Init ==
  \E m \in 1 .. MaxN :
    /\ n = m /\ bucket \in [0 .. m - 1 -> 0 .. m - 1]
    /\ todo = {bucket[k] : k \in 0 .. m - 1}
    /\ place = [k \in 0 .. m - 1 |-> -1] /\ direct = [b \in 0 .. m - 1 |-> -1] /\ idx = [s \in 0 .. m - 1 |-> 0]
Taken == IF Forget = "taken" THEN {} ELSE {place[k] : k \in Slots} \ {-1}
Ready(b) == b \in todo /\ (Forget = "order" \/ \A c \in todo : Size(c) <= Size(b))
\* a seed that puts the names of the bucket into different free slots
Scatter(b) ==
  /\ Ready(b) /\ Size(b) > 1
  /\ \E p \in [In(b) -> Slots \ Taken] :
       /\ \A x, y \in In(b) : x # y => p[x] # p[y]
       /\ place' = [k \in Slots |-> IF k \in In(b) THEN p[k] ELSE place[k]]
       /\ idx' = [s \in Slots |-> IF \E k \in In(b) : p[k] = s THEN CHOOSE k \in In(b) : p[k] = s ELSE idx[s]]
  /\ todo' = todo \ {b} /\ UNCHANGED <<n, bucket, direct>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Single(b) ==
  /\ Ready(b) /\ Size(b) = 1
  /\ LET s == Min(Slots \ Taken)  k == Min(In(b)) IN place' = [place EXCEPT ![k] = s] /\ direct' = [direct EXCEPT ![b] = s] /\ idx' = [idx EXCEPT ![s] = k]
  /\ todo' = todo \ {b} /\ UNCHANGED <<n, bucket>>
Next == \E b \in todo : Scatter(b) \/ Single(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Built == todo = {}
\* where a query lands that falls into bucket b and whose second hash gives s
Answer(b, s) == idx[IF direct[b] >= 0 THEN direct[b] ELSE s]
LawFinds == Built => \A k \in Slots : Answer(bucket[k], place[k]) = k
LawBounds == \A b \in Slots, s \in Slots : Answer(b, s) \in Slots
LawFree == ~Built => ENABLED Next       \* construction never gets stuck
LawBuilt == <>Built
=============================================================================
