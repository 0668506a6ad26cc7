------------------------------ MODULE DocTrace ------------------------------
(* Conversions between texts and DOM documents.  An event:                    *)
(*   x: the text; ca: rejected by string_to_document (of a constant), mv: (of  *)
(*   a temporary); y, ym: texts that document_to_string gave for these; z: for *)
(*   the document of y; w: for the moved document; same: document_to_string    *)
(*   left the document as it was, and so did reading the text                  *)
(*   xn, yn, ymn: the numbers in the texts, in order: bits of  *)
(*   the nearest double, "inf" when there is none                              *)
EXTENDS Text, Base
Events == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k
VARIABLE i
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i

IsIntLit(l) == \A k \in 1 .. Len(l) : l[k] \in Digit \cup {Minus}
RECURSIVE Val10(_, _, _)
Val10(l, a, z) == IF a > z THEN 0 ELSE Val10(l, a, z - 1) * 10 + (l[z] - 48)
RECURSIVE LimbsFrom(_, _, _)
\* limbs of the digits a .. z
LimbsFrom(l, a, z) == IF z < a THEN <<>> ELSE <<Val10(l, IF z - 3 < a THEN a ELSE z - 3, z)>> \o LimbsFrom(l, a, z - 4)
IntLit(l) == LET neg == l[1] = Minus
                 m == IF l = <<Nought>> \/ l = <<Minus, Nought>> THEN <<>> ELSE LimbsFrom(l, IF neg THEN 2 ELSE 1, Len(l))
             IN [s |-> IF neg /\ m # <<>> THEN 1 ELSE 0, m |-> m]
Max64 == PredI(Pow2(64))
Min64 == NegI(Pow2(63))
Fits64(l) == IsIntLit(l) /\ Len(l) <= 20 /\ InRange(IntLit(l), Min64, Max64)

RECURSIVE InDouble(_, _)
InDouble(n, nums) ==
  CASE n.t = "num" -> nums[n.o] # "inf"
    [] n.t = "arr" -> \A k \in 1 .. Len(n.av) : InDouble(n.av[k], nums)
    [] n.t = "obj" -> \A k \in 1 .. Len(n.ov) : InDouble(n.ov[k].n, nums)
    [] OTHER -> TRUE
RECURSIVE SameDoc(_, _, _, _)
SameDoc(x, xn, y, yn) ==
  /\ x.t = y.t
  /\ CASE x.t = "b" -> x.bv = y.bv
       [] x.t = "str" -> x.sv = y.sv
       [] x.t = "num" -> IF Fits64(x.lit) THEN Fits64(y.lit) /\ IntLit(x.lit) = IntLit(y.lit) ELSE xn[x.o] = yn[y.o]
       [] x.t = "arr" -> Len(x.av) = Len(y.av) /\ \A k \in 1 .. Len(x.av) : SameDoc(x.av[k], xn, y.av[k], yn)
       [] x.t = "obj" -> Len(x.ov) = Len(y.ov) /\ \A k \in 1 .. Len(x.ov) : x.ov[k].k = y.ov[k].k /\ SameDoc(x.ov[k].n, xn, y.ov[k].n, yn)
       [] OTHER -> TRUE

Denotes(x, xn, t, tn) == LET r == Build(t) IN r.ok /\ SameDoc(x, xn, r.n, tn)
Bad(e) ==
  IF e.dead THEN {"dead"}
  ELSE LET r == Build(e.x)
           good == r.ok /\ InDouble(r.n, e.xn)
       IN (IF good # e.jv THEN {"adapter"} ELSE {})
          \cup (IF e.ca = good THEN {"s2d.ok"} ELSE {}) \cup (IF e.mv = good THEN {"s2d.ok"} ELSE {})
          \cup (IF ~e.same THEN {"changed"} ELSE {})
          \cup (IF ~good THEN {} ELSE
                 (IF e.ca \/ Denotes(r.n, e.xn, e.y, e.yn) THEN {} ELSE {"d2s"})
                 \cup (IF e.mv \/ Denotes(r.n, e.xn, e.ym, e.ymn) THEN {} ELSE {"d2s"})
                 \cup (IF e.ca \/ (e.z = e.y /\ e.w = e.y) THEN {} ELSE {"again"}))
Allowed == LET b == Bad(Events[i]) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
