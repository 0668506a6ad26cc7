-------------------------------- MODULE Emit --------------------------------
(* Output.  Emit constructs the document of a value; Emitted checks that a    *)
(* given document is one that output may produce (unordered dictionaries may  *)
(* be in any order).  The state carried along is the table of shared objects  *)
(* already written in full: a sequence of [t, id, p].                         *)
EXTENDS Values, Doc, Base64, Calendar

RECURSIVE TabFind(_, _, _, _)
TabFind(tab, t, id, i) == IF i > Len(tab) THEN 0 ELSE IF tab[i].t = t /\ tab[i].id = id THEN i ELSE TabFind(tab, t, id, i + 1)

RECURSIVE EmitT(_, _, _, _)
RECURSIVE EmitSeq(_, _, _, _, _, _, _)
RECURSIVE EmitMap(_, _, _, _, _, _)
RECURSIVE EmitObj(_, _, _, _, _, _)
ER(n, tab) == [n |-> n, tab |-> tab]

EmitSeq(e, rep, v, i, path, tab, acc) ==
  IF i > Len(v) THEN ER(DArr(acc), tab)
  ELSE LET r == EmitT(IF rep THEN e[1] ELSE e[i], v[i], SubIndex(path, i - 1), tab)
       IN EmitSeq(e, rep, v, i + 1, path, r.tab, Append(acc, r.n))
EmitMap(t, v, i, path, tab, acc) ==
  IF i > Len(v) THEN ER(DObj(acc), tab)
  ELSE LET r == EmitT(t, v[i][2], SubName(path, v[i][1]), tab)
       IN EmitMap(t, v, i + 1, path, r.tab, Append(acc, DEnt(v[i][1], r.n)))
EmitObj(T, v, i, path, tab, acc) ==
  IF i > Len(v) THEN ER(DObj(acc), tab)
  ELSE LET M == T.m[i] IN
       IF M.o = "opt" /\ v[i] = <<>> THEN EmitObj(T, v, i + 1, path, tab, acc)
       ELSE LET r == EmitT(M.t, IF M.o = "opt" THEN v[i][1] ELSE v[i], SubName(path, M.nm), tab)
            IN EmitObj(T, v, i + 1, path, r.tab, Append(acc, DEnt(M.nm, r.n)))
EmitT(t, v, path, tab) ==
  LET T == TY(t) IN
  CASE T.k = "null" -> ER(DNull, tab)
    [] T.k = "bool" -> ER(DBool(v), tab)
    [] T.k \in {"int", "enumi"} -> ER(DInt(v), tab)
    [] T.k \in {"float", "double"} -> ER(DDbl(v), tab)
    [] T.k = "str" -> ER(DStr(v), tab)
    [] T.k = "bytes" -> ER(DStr(Encode(v)), tab)
    [] T.k = "ts" -> ER(DStr(TimeText(v.d, v.s)), tab)
    [] T.k = "date" -> ER(DStr(DateText(v)), tab)
    [] T.k = "enums" -> ER(DStr(T.nms[v + 1]), tab)
    [] T.k \in {"vec", "set", "arr"} -> EmitSeq(T.e, TRUE, v, 1, path, tab, <<>>)
    [] T.k = "tup" -> EmitSeq(T.e, FALSE, v, 1, path, tab, <<>>)
    [] T.k \in {"map", "umap"} -> EmitMap(T.e[1], v, 1, path, tab, <<>>)
    [] T.k = "obj" -> EmitObj(T, v, 1, path, tab, <<>>)
    [] T.k = "uptr" -> EmitT(T.e[1], v[2], path, tab)
    [] T.k = "sptr" ->
         LET k == TabFind(tab, T.e[1], v[1], 1) IN
         IF k # 0 THEN ER(DRef(tab[k].p), tab)
         ELSE LET r == EmitT(T.e[1], v[2], path, tab) IN ER(r.n, Append(r.tab, [t |-> T.e[1], id |-> v[1], p |-> path]))
    [] T.k = "var" -> EmitT(T.e[v[1] + 1], v[2], path, tab)
Emit(t, v) == EmitT(t, v, <<>>, <<>>).n

----------------------------------------------------------------------------
\* why: the first reason found, "" if the document is one of the value
\*   "form"  wrong form of a construct,  "ref" wrong use of a back-reference
RECURSIVE Em(_, _, _, _, _)
RECURSIVE EmSeq(_, _, _, _, _, _, _)
RECURSIVE EmMap(_, _, _, _, _, _)
RECURSIVE EmObj(_, _, _, _, _, _, _)
MR(why, tab) == [why |-> why, tab |-> tab]
MForm(b, tab) == MR(IF b THEN "" ELSE "form", tab)

EmSeq(e, rep, v, n, i, path, tab) ==
  IF i = 1 /\ rep /\ Len(v) > 4 /\ ~TY(e[1]).sh THEN MForm(\A k \in 1 .. Len(v) : Em(e[1], v[k], n.av[k], path, tab).why = "", tab)
  ELSE IF i > Len(v) THEN MR("", tab)
  ELSE LET r == Em(IF rep THEN e[1] ELSE e[i], v[i], n.av[i], SubIndex(path, i - 1), tab)
       IN IF r.why = "" THEN EmSeq(e, rep, v, n, i + 1, path, r.tab) ELSE r
\* entries are visited in the order of the document, which is the order of output
EmMap(t, v, n, i, path, tab) ==
  IF i > Len(v) THEN MR("", tab)
  ELSE LET k == n.ov[i].k  j == KeyAt(v, k, 1) IN
       IF j = 0 THEN MR("form", tab)
       ELSE LET r == Em(t, v[j][2], n.ov[i].n, SubName(path, k), tab)
            IN IF r.why = "" THEN EmMap(t, v, n, i + 1, path, r.tab) ELSE r
EmObj(T, v, n, i, j, path, tab) ==
  IF i > Len(v) THEN MR(IF j = Len(n.ov) + 1 THEN "" ELSE "form", tab)
  ELSE LET M == T.m[i] IN
       IF M.o = "opt" /\ v[i] = <<>> THEN EmObj(T, v, n, i + 1, j, path, tab)
       ELSE IF j > Len(n.ov) \/ n.ov[j].k # M.nm THEN MR("form", tab)
       ELSE LET r == Em(M.t, IF M.o = "opt" THEN v[i][1] ELSE v[i], n.ov[j].n, SubName(path, M.nm), tab)
            IN IF r.why = "" THEN EmObj(T, v, n, i + 1, j + 1, path, r.tab) ELSE r
\* an instant with a fraction is written as a second less than one second away
NearSecond(v, s) ==
  IF v.n = 0 THEN s = TimeText(v.d, v.s)
  ELSE \/ s = TimeText(v.d, v.s)
       \/ s = (IF v.s = 86399 THEN TimeText(v.d + 1, 0) ELSE TimeText(v.d, v.s + 1))
Em(t, v, n, path, tab) ==
  LET T == TY(t) IN
  CASE T.k = "null" -> MForm(n.t = "null", tab)
    [] T.k = "bool" -> MForm(n.t = "b" /\ n.bv = v, tab)
    [] T.k \in {"int", "enumi"} -> MForm(n.t = "num" /\ n.i /\ n.s = v.s /\ n.m = v.m, tab)
    [] T.k = "float" -> MForm(n.t = "num" /\ n.fr /\ n.f = v.f, tab)
    [] T.k = "double" -> MForm(n.t = "num" /\ n.d = v.d, tab)
    [] T.k = "str" -> MForm(n.t = "str" /\ n.sv = v, tab)
    [] T.k = "bytes" -> MForm(n.t = "str" /\ n.sv = Encode(v), tab)
    [] T.k = "ts" -> MForm(n.t = "str" /\ NearSecond(v, n.sv), tab)
    [] T.k = "date" -> MForm(n.t = "str" /\ n.sv = DateText(v), tab)
    [] T.k = "enums" -> MForm(n.t = "str" /\ n.sv = T.nms[v + 1], tab)
    [] T.k \in {"vec", "set", "arr"} -> IF n.t = "arr" /\ Len(n.av) = Len(v) THEN EmSeq(T.e, TRUE, v, n, 1, path, tab) ELSE MR("form", tab)
    [] T.k = "tup" -> IF n.t = "arr" /\ Len(n.av) = Len(v) THEN EmSeq(T.e, FALSE, v, n, 1, path, tab) ELSE MR("form", tab)
    [] T.k \in {"map", "umap"} ->
         IF n.t # "obj" \/ Len(n.ov) # Len(v) THEN MR("form", tab)
         ELSE IF T.k = "map" /\ ~\A i \in 1 .. Len(v) : n.ov[i].k = v[i][1] THEN MR("form", tab)
         ELSE EmMap(T.e[1], v, n, 1, path, tab)
    [] T.k = "obj" -> IF n.t = "obj" THEN EmObj(T, v, n, 1, 1, path, tab) ELSE MR("form", tab)
    [] T.k = "uptr" -> Em(T.e[1], v[2], n, path, tab)
    [] T.k = "sptr" ->
         LET k == TabFind(tab, T.e[1], v[1], 1) IN
         IF k # 0 THEN MR(IF Same(n, DRef(tab[k].p)) THEN "" ELSE "ref", tab)
         ELSE IF n.t = "obj" /\ Len(n.ov) = 1 /\ IsRefEntry(n.ov[1]) THEN MR("ref", tab)
         ELSE LET r == Em(T.e[1], v[2], n, path, tab)
              IN IF r.why = "" THEN MR("", Append(r.tab, [t |-> T.e[1], id |-> v[1], p |-> path])) ELSE r
    [] T.k = "var" -> Em(T.e[v[1] + 1], v[2], n, path, tab)
Emitted(t, v, n) == Em(t, v, n, <<>>, <<>>).why
=============================================================================
