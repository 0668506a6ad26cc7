--------------------------------- MODULE Doc ---------------------------------
(* JSON documents.  A node is a record whose field t names its kind:          *)
(*   null | b (bv) | num (i, s, m, d, f, fr, xf, xd) | str (sv) | arr (av)    *)
(*   | obj (ov: sequence of [k, n, a, z]).                                    *)
(* Fields a and z are the positions in the text where the token of the node   *)
(* (for a container: its opening bracket) starts and ends, c and cz those of  *)
(* the closing bracket.  A number has:                                        *)
(*   i  it is written in integer notation and fits 64 bits (signed or not)    *)
(*   s, m  its integer value if i                                             *)
(*   d, f, fd  bits of the nearest double, of that double as a float, and of  *)
(*      that float as a double                                                *)
(*   fr its magnitude is at most the largest float                            *)
(*   xf, xd how an integer relates to a float / double mantissa: "in" when    *)
(*      below 2^24 / 2^53, "ex" when beyond but exact, "no" when inexact.      *)
EXTENDS Base

DNull == [t |-> "null", a |-> 0, z |-> 0]
DBool(x) == [t |-> "b", bv |-> x, a |-> 0, z |-> 0]
DStr(x) == [t |-> "str", sv |-> x, a |-> 0, z |-> 0]
DArr(x) == [t |-> "arr", av |-> x, a |-> 0, z |-> 0, c |-> 0, cz |-> 0]
DObj(x) == [t |-> "obj", ov |-> x, a |-> 0, z |-> 0, c |-> 0, cz |-> 0]
DEnt(k, n) == [k |-> k, n |-> n, a |-> 0, z |-> 0]
\* integer; mantissa relations are decided below 2^24 and above 2^53 only by the adapter, here small integers suffice
DInt(x) == [t |-> "num", i |-> TRUE, s |-> x.s, m |-> x.m, d |-> "", f |-> "", fd |-> "", fr |-> TRUE, xf |-> "in", xd |-> "in", a |-> 0, z |-> 0]
DDbl(x) == [t |-> "num", i |-> FALSE, s |-> 0, m |-> <<>>, d |-> x.d, f |-> x.f, fd |-> x.d, fr |-> TRUE, xf |-> "in", xd |-> "in", a |-> 0, z |-> 0]
IsRefEntry(e) == e.k = <<36, 114, 101, 102>>             \* $ref
DRef(path) == DObj(<<DEnt(<<36, 114, 101, 102>>, DStr(path))>>)

RECURSIVE Same(_, _)
\* same document: structure, names, order of members and number values
Same(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t = "null" -> TRUE
       [] x.t = "b" -> x.bv = y.bv
       [] x.t = "str" -> x.sv = y.sv
       [] x.t = "num" -> IF x.i /\ y.i THEN x.s = y.s /\ x.m = y.m ELSE x.d = y.d
       [] x.t = "arr" -> Len(x.av) = Len(y.av) /\ \A i \in 1 .. Len(x.av) : Same(x.av[i], y.av[i])
       [] x.t = "obj" -> Len(x.ov) = Len(y.ov) /\ \A i \in 1 .. Len(x.ov) : x.ov[i].k = y.ov[i].k /\ Same(x.ov[i].n, y.ov[i].n)

RECURSIVE FindKey(_, _, _)
\* position of the entry with the given key, 0 if there is none
FindKey(ov, key, i) == IF i > Len(ov) THEN 0 ELSE IF ov[i].k = key THEN i ELSE FindKey(ov, key, i + 1)

RECURSIVE Depth(_)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Depth(x) ==
  CASE x.t = "arr" -> 1 + MaxOf({Depth(x.av[i]) : i \in 1 .. Len(x.av)})
    [] x.t = "obj" -> 1 + MaxOf({Depth(x.ov[i].n) : i \in 1 .. Len(x.ov)})
    [] OTHER -> 0

RECURSIVE KeysDistinct(_)
KeysDistinct(x) ==
  CASE x.t = "arr" -> \A i \in 1 .. Len(x.av) : KeysDistinct(x.av[i])
    [] x.t = "obj" -> /\ Cardinality({x.ov[i].k : i \in 1 .. Len(x.ov)}) = Len(x.ov)
                      /\ \A i \in 1 .. Len(x.ov) : KeysDistinct(x.ov[i].n)
    [] OTHER -> TRUE
=============================================================================
