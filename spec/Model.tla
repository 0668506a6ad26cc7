-------------------------------- MODULE Model --------------------------------
(* A bounded model of the whole life of a value: a value of a catalogued type *)
(* is chosen, written to a document, the document is possibly altered (one    *)
(* alteration per step, at any place), and read back by both readers.  Every  *)
(* state is checked against the laws below, and printed so that the driver    *)
(* can put the same value or document to the library (conformance: Trace).    *)
(*   SEL: [ids, cap, top, depth, mut, share, wide, fv, dv, nums]              *)
EXTENDS Judge

Sel == JsonDeserialize(IOEnv.SEL)
Ids == {Sel.ids[i] : i \in 1 .. Len(Sel.ids)}

----------------------------------------------------------------------------
\* values: a short sequence of values of a type, nested to a depth
Cut(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
At(s, i) == s[((i - 1) % Len(s)) + 1]
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOfSet(S \ {x})

RECURSIVE Vals(_, _)
ValsSeq(E) == <<<<>>>> \o [i \in 1 .. Len(E) |-> <<E[i]>>] \o (IF Len(E) > 1 THEN <<<<E[1], E[2]>>, <<E[2], E[1]>>>> ELSE <<>>) \o (IF Len(E) > 2 THEN <<<<E[2], E[3], E[1]>>>> ELSE <<>>)
Keys == <<<<97>>, <<>>, <<97, 47, 126, 98>>>>
ValsMap(E) == <<<<>>>> \o [i \in 1 .. Len(E) |-> <<<<At(Keys, i), E[i]>>>>] \o (IF Len(E) > 1 THEN <<<<<<Keys[2], E[1]>>, <<Keys[1], E[2]>>>>>> ELSE <<>>)
\* one value per row, elements taken in rotation
ValsTup(W, n) == [i \in 1 .. n |-> [k \in 1 .. Len(W) |-> At(W[k], i + k - 1)]]
ValsRaw(t, d) ==
  LET T == TY(t) IN
  CASE T.k = "null" -> <<0>>
    [] T.k = "bool" -> <<TRUE, FALSE>>
    [] T.k \in {"int", "enumi"} -> <<T.hi, T.lo, IntOf(7)>>
    [] T.k = "float" -> Sel.fv
    [] T.k = "double" -> Sel.dv
    [] T.k = "str" -> <<<<97>>, <<>>, <<0, 47, 126, 34>>>>
    [] T.k = "bytes" -> <<<<1, 2, 3>>, <<>>, <<255>>, <<0, 254>>>>
    [] T.k = "ts" -> <<[d |-> 0, s |-> 0, n |-> 0], [d |-> -1, s |-> 86399, n |-> 0], [d |-> 11016, s |-> 43201, n |-> 0]>>
    [] T.k = "date" -> <<[y |-> 2024, m |-> 2, d |-> 29], [y |-> 0, m |-> 1, d |-> 1], [y |-> 9999, m |-> 12, d |-> 31]>>
    [] T.k = "enums" -> [i \in 1 .. Len(T.nms) |-> i - 1]
    [] T.k \in {"vec", "set"} -> IF d <= 0 THEN <<<<>>>> ELSE ValsSeq(Vals(T.e[1], d - 1))
    [] T.k \in {"map", "umap"} -> IF d <= 0 THEN <<<<>>>> ELSE ValsMap(Vals(T.e[1], d - 1))
    [] T.k = "arr" -> IF T.n = 0 THEN <<<<>>>> ELSE LET E == Vals(T.e[1], d - 1) IN ValsTup([k \in 1 .. T.n |-> E], Len(E))
    [] T.k = "tup" -> IF T.e = <<>> THEN <<<<>>>> ELSE LET W == [k \in 1 .. Len(T.e) |-> Vals(T.e[k], d - 1)] IN ValsTup(W, MaxOf({Len(W[k]) : k \in 1 .. Len(W)}))
    [] T.k = "obj" ->
         LET opts == {k \in 1 .. Len(T.m) : T.m[k].o = "opt"}
             W == [k \in 1 .. Len(T.m) |-> IF T.m[k].o = "opt" THEN (IF d <= 0 THEN <<<<>>>> ELSE LET E == Vals(T.m[k].t, d - 1) IN [i \in 1 .. Len(E) |-> <<E[i]>>]) ELSE Vals(T.m[k].t, d - 1)]
             full == ValsTup(W, MaxOf({Len(W[k]) : k \in 1 .. Len(W)}))
             without(A) == [k \in 1 .. Len(T.m) |-> IF k \in A THEN <<>> ELSE full[1][k]]
         IN IF d <= 0 \/ opts = {} THEN full
            ELSE <<full[1]>> \o <<without(opts)>> \o (IF Len(full) > 1 THEN Tail(full) ELSE <<>>) \o
                    (IF Cardinality(opts) <= 1 THEN <<>> ELSE LET q == SeqOfSet(opts) IN [i \in 1 .. Len(q) |-> without({q[i]})] \o [i \in 1 .. Len(q) |-> without(opts \ {q[i]})])
    [] T.k = "uptr" -> LET E == Vals(T.e[1], d) IN [i \in 1 .. Len(E) |-> <<1, E[i]>>]
    [] T.k = "sptr" -> LET E == Vals(T.e[1], d) IN [i \in 1 .. Len(E) |-> <<1, E[i]>>]
    [] T.k = "var" -> Flat([k \in 1 .. Len(T.e) |-> LET E == Cut(Vals(T.e[k], d - 1), 2) IN [i \in 1 .. Len(E) |-> <<k - 1, E[i]>>]])
Vals(t, d) == Cut(ValsRaw(t, d), Sel.cap)

\* sharing: at every shared pointer, a new object or any object completed earlier
RECURSIVE Sh(_, _, _)
RECURSIVE ShSeq(_, _, _, _, _, _)
SV(v, st) == [v |-> v, st |-> st]
\* e: type of element i, g: the part of element i that holds values
ShSeq(ty, v, i, acc, st, mode) ==
  IF i > Len(v) THEN {SV(acc, st)}
  ELSE LET x == CASE mode = "map" -> v[i][2] [] mode = "obj" -> v[i] [] OTHER -> v[i]
           e == ty[IF Len(ty) = 1 /\ mode = "seq" THEN 1 ELSE i]
       IN UNION {ShSeq(ty, v, i + 1, Append(acc, IF mode = "map" THEN <<v[i][1], r.v>> ELSE r.v), r.st, mode) : r \in Sh(e, x, st)}
Sh(t, v, st) ==
  LET T == TY(t) IN
  IF ~T.sh THEN {SV(v, st)}
  ELSE CASE T.k \in {"vec", "set", "arr"} -> ShSeq(T.e, v, 1, <<>>, st, "seq")
         [] T.k = "tup" -> IF Len(T.e) = 1 THEN ShSeq(T.e, v, 1, <<>>, st, "seq") ELSE ShSeq(T.e, v, 1, <<>>, st, "tup")
         [] T.k \in {"map", "umap"} -> IF v = <<>> THEN {SV(v, st)} ELSE ShSeq([i \in 1 .. Len(v) |-> T.e[1]], v, 1, <<>>, st, "map")
         [] T.k = "obj" ->
              LET RECURSIVE Go(_, _, _)
                  Go(i, acc, s) ==
                    IF i > Len(v) THEN {SV(acc, s)}
                    ELSE IF T.m[i].o = "opt"
                         THEN IF v[i] = <<>> THEN Go(i + 1, Append(acc, <<>>), s) ELSE UNION {Go(i + 1, Append(acc, <<r.v>>), r.st) : r \in Sh(T.m[i].t, v[i][1], s)}
                         ELSE UNION {Go(i + 1, Append(acc, r.v), r.st) : r \in Sh(T.m[i].t, v[i], s)}
              IN Go(1, <<>>, st)
         [] T.k = "uptr" -> {SV(<<1, r.v>>, r.st) : r \in Sh(T.e[1], v[2], st)}
         [] T.k = "var" -> {SV(<<v[1], r.v>>, r.st) : r \in Sh(T.e[v[1] + 1], v[2], st)}
         [] T.k = "sptr" ->
              {LET id == r.st.c + 1  n == <<id, r.v>> IN SV(n, [c |-> id, tab |-> Append(r.st.tab, [t |-> T.e[1], v |-> n])]) : r \in Sh(T.e[1], v[2], st)}
              \cup (IF Sel.share THEN {SV(st.tab[k].v, st) : k \in {q \in 1 .. Len(st.tab) : st.tab[q].t = T.e[1]}} ELSE {})
Values(t) ==
  LET T == TY(t)  s == Cut(ValsRaw(t, Sel.depth), Sel.top)
  IN IF ~T.sh THEN {s[i] : i \in 1 .. Len(s)}
     ELSE UNION {{r.v : r \in Sh(t, s[i], [c |-> 0, tab |-> <<>>])} : i \in 1 .. Len(s)}

----------------------------------------------------------------------------
\* documents: numbering of tokens in the order of the text
RECURSIVE Ann(_, _)
AR2(n, k) == [n |-> n, k |-> k]
Ann(j, k) ==
  CASE j.t = "arr" ->
         LET RECURSIVE Go(_, _, _)
             Go(i, acc, q) == IF i > Len(j.av) THEN AR2([j EXCEPT !.av = acc, !.a = k, !.z = k, !.c = q, !.cz = q], q + 1) ELSE LET r == Ann(j.av[i], q) IN Go(i + 1, Append(acc, r.n), r.k)
         IN Go(1, <<>>, k + 1)
    [] j.t = "obj" ->
         LET RECURSIVE Go(_, _, _)
             Go(i, acc, q) == IF i > Len(j.ov) THEN AR2([j EXCEPT !.ov = acc, !.a = k, !.z = k, !.c = q, !.cz = q], q + 1)
                              ELSE LET r == Ann(j.ov[i].n, q + 1) IN Go(i + 1, Append(acc, [j.ov[i] EXCEPT !.n = r.n, !.a = q, !.z = q]), r.k)
         IN Go(1, <<>>, k + 1)
    [] OTHER -> AR2([j EXCEPT !.a = k, !.z = k], k + 1)
Numbered(j) == Ann(j, 0).n

RECURSIVE PathsOf(_, _)
PathsOf(j, p) ==
  {p} \cup CASE j.t = "arr" -> UNION {PathsOf(j.av[i], SubIndex(p, i - 1)) : i \in 1 .. Len(j.av)}
             [] j.t = "obj" -> UNION {PathsOf(j.ov[i].n, SubName(p, j.ov[i].k)) : i \in 1 .. Len(j.ov)}
             [] OTHER -> {}

\* alterations
X == <<120>>
Generic == {DNull, DBool(TRUE), DInt(IntOf(0)), DStr(X), DArr(<<>>), DObj(<<>>)} \cup (IF Sel.wide THEN {DBool(FALSE), DStr(<<>>), DArr(<<DInt(IntOf(1))>>), DObj(<<DEnt(X, DNull)>>), Sel.nums[1], Sel.nums[2], Sel.nums[3]} ELSE {Sel.nums[1]})
DropLast(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Peel(_)
Peel(t) == IF t = 0 THEN 0 ELSE IF TY(t).k \in {"uptr", "sptr"} THEN Peel(TY(t).e[1]) ELSE t
StrMuts(s) == {DStr(Append(s, 120)), DStr(Append(s, 0))} \cup (IF s = <<>> THEN {} ELSE {DStr(DropLast(s))})
Special(t, P) ==
  IF t = 0 THEN {} ELSE
  LET T == TY(Peel(t))
      R == IF TY(t).k = "sptr" THEN {DRef(p) : p \in P} \cup {DRef(<<47, 63>>), DObj(<<DEnt(<<36, 114, 101, 102>>, DInt(IntOf(0)))>>)} ELSE {}
  IN R \cup CASE T.k \in {"int", "enumi"} -> {DInt(T.lo), DInt(T.hi), DInt(PredI(T.lo)), DInt(SuccI(T.hi))}
              [] T.k \in {"float", "double"} -> {Sel.nums[i] : i \in 1 .. Len(Sel.nums)}
              [] T.k = "enums" -> {DStr(T.nms[i]) : i \in 1 .. Len(T.nms)} \cup StrMuts(T.nms[1])
              [] T.k = "bytes" -> {DStr(<<65, 65, 65>>), DStr(<<65, 65, 61, 61>>), DStr(<<65, 61, 65, 65>>), DStr(<<65, 65, 45, 65>>), DStr(<<61, 61, 61, 61>>)}
              [] T.k = "date" -> {DStr(<<50, 48, 50, 51, 45, 48, 50, 45, 50, 57>>)}
              [] T.k = "ts" -> {DStr(<<50, 48, 50, 51, 45, 48, 50, 45, 50, 56, 84, 50, 52, 58, 48, 48, 58, 48, 48, 90>>)}
              [] OTHER -> {}
RECURSIVE Mut(_, _, _)
ChildT(t, i) == LET T == TY(Peel(t)) IN CASE T.k \in {"vec", "set", "arr"} -> T.e[1] [] T.k = "tup" -> IF i <= Len(T.e) THEN T.e[i] ELSE 0 [] OTHER -> 0
MemberT(t, key) == LET T == TY(Peel(t)) IN CASE T.k \in {"map", "umap"} -> T.e[1] [] T.k = "obj" -> LET k == MemberNamed(T.m, key, 1) IN IF k = 0 THEN 0 ELSE T.m[k].t [] OTHER -> 0
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Mut(t, j, P) ==
  Generic \cup Special(t, P) \cup
  CASE j.t = "arr" ->
         {DArr(Del(j.av, i)) : i \in 1 .. Len(j.av)} \cup {DArr(Ins(j.av, i, j.av[i])) : i \in 1 .. Len(j.av)} \cup {DArr(Append(j.av, DNull)), DArr(Append(j.av, DInt(IntOf(0))))}
         \cup UNION {{DArr([j.av EXCEPT ![i] = m]) : m \in Mut(IF t = 0 THEN 0 ELSE ChildT(t, i), j.av[i], P)} : i \in 1 .. Len(j.av)}
    [] j.t = "obj" ->
         {DObj(Del(j.ov, i)) : i \in 1 .. Len(j.ov)}
         \cup {DObj([j.ov EXCEPT ![i].k = Append(@, 120)]) : i \in 1 .. Len(j.ov)} \cup {DObj([j.ov EXCEPT ![i].k = Append(@, 0)]) : i \in 1 .. Len(j.ov)}
         \cup {DObj([j.ov EXCEPT ![i].k = DropLast(@)]) : i \in {q \in 1 .. Len(j.ov) : j.ov[q].k # <<>>}}
         \cup {DObj(Append(j.ov, DEnt(<<63>>, DNull))), DObj(<<DEnt(<<63>>, DArr(<<DObj(<<>>)>>))>> \o j.ov)}
         \cup (IF HasRef(j) THEN {} ELSE {DObj([j.ov EXCEPT ![i] = j.ov[i + 1], ![i + 1] = j.ov[i]]) : i \in 1 .. Len(j.ov) - 1})
         \cup UNION {{DObj([j.ov EXCEPT ![i].n = m]) : m \in Mut(IF t = 0 THEN 0 ELSE MemberT(t, j.ov[i].k), j.ov[i].n, P)} : i \in 1 .. Len(j.ov)}
    [] OTHER -> {}

----------------------------------------------------------------------------
VARIABLE st         \* [t, v, j, m]: type, value, document, number of alterations
vars == <<st>>
Init == \E t \in Ids : \E v \in Values(t) : st = [t |-> t, v |-> v, j |-> Numbered(Emit(t, v)), m |-> 0]
Alter == /\ st.m < Sel.mut
         /\ \E n \in Mut(st.t, st.j, PathsOf(st.j, <<>>)) : LET q == Numbered(n) IN KeysDistinct(q) /\ q # st.j /\ st' = [st EXCEPT !.j = q, !.m = @ + 1]
Next == Alter
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the laws
DR == Des(st.t, st.j)
PRes == Par(st.t, st.j)
\* what is written is what output may produce, and is read back as the same value
LawOutput == st.m = 0 => Emitted(st.t, st.v, st.j) = ""
LawRoundTripD == st.m = 0 => DR.ok /\ (TY(st.t).va \/ Eq(st.t, DR.v, st.v))
LawRoundTripP == st.m = 0 /\ TY(st.t).ps /\ ~RepeatsShared(st.t, st.v) => PRes.ok /\ Eq(st.t, PRes.v, st.v)
\* both readers agree up to the documented differences
LawAgree ==
  TY(st.t).ps /\ ~HasRef(st.j) =>
    /\ DR.ok /\ PRes.ok => Eq(st.t, DR.v, PRes.v)
    /\ DR.ok /\ ~PRes.ok => HasUnknown(st.t, st.j) \/ HasWideInt(st.t, st.j)
    /\ PRes.ok /\ ~DR.ok => HasMissing(st.t, st.j)
\* an error is at a place of the document, a mismatch is not reported for a document that matches
LawPlace == DR.ok \/ (DR.errs # {} /\ DR.errs \subseteq PathsOf(st.j, <<>>))
\* a value that was read can be written and read again
Stable(v) == Representable(st.t, v) => LET r == Des(st.t, Emit(st.t, v)) IN r.ok /\ (TY(st.t).va \/ Eq(st.t, r.v, v))
LawStable == DR.ok => Stable(DR.v)
\* a document without back-references denotes distinct objects
LawDistinct == DR.ok /\ ~HasRef(st.j) => ~RepeatsShared(st.t, DR.v)

Out == IF st.m = 0 THEN PrintT("VAL " \o ToJson([t |-> st.t, v |-> st.v])) ELSE PrintT("DOC " \o ToJson([t |-> st.t, j |-> st.j]))
=============================================================================
