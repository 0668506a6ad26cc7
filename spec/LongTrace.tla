------------------------------ MODULE LongTrace ------------------------------
(* Back-references in long sequences of shared objects.  An event describes a *)
(* sequence of n elements in which the elements listed in al share the object *)
(* of an earlier element, in one of four shapes: an array, an object with one *)
(* member per element, an array of arrays of w elements each, an array that   *)
(* is a member of a class.  w, s: what the writer and the serializer produced *)
(* (elements written as a back-reference, in order, with the path); d: which  *)
(* elements share the object of an earlier element when the text is read.     *)
(* Event: [dead, shape, n, w, al: sequence of <<i, j>>, wr, wn, sr, sn:       *)
(* sequences of <<i, path>> and numbers of elements, ok, dr: like al]         *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json, Base
Events == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Events)
VARIABLE i
Init == i \in 1 .. N
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i
kItems == <<105, 116, 101, 109, 115>>
(* where element k lies *)
Place(e, k) ==
  CASE e.shape = 0 -> SubIndex(<<>>, k)
    [] e.shape = 1 -> <<Slash, 107>> \o Pad(k, 7)
    [] e.shape = 2 -> SubIndex(SubIndex(<<>>, k \div e.w), k % e.w)
    [] e.shape = 3 -> SubIndex(<<Slash>> \o kItems, k)
Refs(e) == [k \in 1 .. Len(e.al) |-> <<e.al[k][1], Place(e, e.al[k][2])>>]
Bad(e) ==
  IF e.dead THEN {"dead"}
  ELSE LET R == Refs(e) IN
       (IF e.wr # R \/ e.wn # e.n THEN {"w.ref"} ELSE {}) \cup (IF e.sr # R \/ e.sn # e.n THEN {"s.ref"} ELSE {})
       \cup (IF ~e.ok THEN {"d.val"} ELSE IF e.dr # e.al THEN {"d.share"} ELSE {})
Allowed == LET b == Bad(Events[i]) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
