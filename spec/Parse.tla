-------------------------------- MODULE Parse --------------------------------
(* The event parser.  It reads tokens in the order of the text, rejects names *)
(* that a class does not have, leaves absent members as the class initializes *)
(* them and does not know back-references or variants.  Par(t, j) yields      *)
(*   ok   whether the text matches                                            *)
(*   v    the value (if ok)                                                   *)
(*   at   the first token that does not match, as <<start, end>> (if not ok)  *)
(*   dc   tokens at which either verdict is allowed (integers beyond the      *)
(*        mantissa of a floating-point type that happen to be exact)          *)
EXTENDS Accept

PR(v, dc) == [ok |-> TRUE, v |-> v, at |-> <<0, 0>>, dc |-> dc]
PF(at, dc) == [ok |-> FALSE, v |-> 0, at |-> at, dc |-> dc]
Tok(j) == <<j.a, j.z>>

RECURSIVE Pa(_, _)
RECURSIVE PaSeq(_, _, _, _, _, _)
RECURSIVE PaMap(_, _, _, _, _)
RECURSIVE PaObj(_, _, _, _, _)
PaAll(t, js) ==
  LET rs == TLCEval([i \in 1 .. Len(js) |-> Pa(t, js[i])])
      bad == {i \in 1 .. Len(js) : ~rs[i].ok}
      k == IF bad = {} THEN Len(js) ELSE MinOf(bad)
      dc == UNION {rs[i].dc : i \in {q \in 1 .. k : rs[q].dc # {}}}
  IN IF bad = {} THEN PR(TLCEval([i \in 1 .. Len(js) |-> rs[i].v]), dc) ELSE PF(rs[k].at, dc)
PaSeq(e, rep, js, i, vs, dc) ==
  IF i = 1 /\ rep /\ Len(js) > 4 THEN PaAll(e[1], js)
  ELSE IF i > Len(js) THEN PR(vs, dc)
  ELSE LET r == Pa(IF rep THEN e[1] ELSE e[i], js[i])
       IN IF r.ok THEN PaSeq(e, rep, js, i + 1, Append(vs, r.v), dc \cup r.dc) ELSE PF(r.at, dc \cup r.dc)
PaMap(t, ov, i, vs, dc) ==
  IF i > Len(ov) THEN PR(vs, dc)
  ELSE LET r == Pa(t, ov[i].n)
       IN IF r.ok THEN PaMap(t, ov, i + 1, Append(vs, <<ov[i].k, r.v>>), dc \cup r.dc) ELSE PF(r.at, dc \cup r.dc)
RECURSIVE MemberNamed(_, _, _)
MemberNamed(m, key, i) == IF i > Len(m) THEN 0 ELSE IF m[i].nm = key THEN i ELSE MemberNamed(m, key, i + 1)
PaObj(T, ov, i, vs, dc) ==
  IF i > Len(ov) THEN PR(vs, dc)
  ELSE LET k == MemberNamed(T.m, ov[i].k, 1) IN
       IF k = 0 THEN PF(<<ov[i].a, ov[i].z>>, dc)
       ELSE LET r == Pa(T.m[k].t, ov[i].n)
            IN IF r.ok THEN PaObj(T, ov, i + 1, [vs EXCEPT ![k] = IF T.m[k].o = "opt" THEN <<r.v>> ELSE r.v], dc \cup r.dc)
               ELSE PF(r.at, dc \cup r.dc)
InitObj(T) == [i \in 1 .. Len(T.m) |-> T.m[i].iv]
Pa(t, j) ==
  LET T == TY(t) IN
  IF IsScalar(T)
  THEN IF ~ScalarOk(T, j) THEN PF(Tok(j), {})
       ELSE IF T.k \in {"float", "double"} /\ j.i
            THEN LET x == IF T.k = "float" THEN j.xf ELSE j.xd
                 IN IF x = "no" THEN PF(Tok(j), {}) ELSE PR(ScalarVal(T, j), IF x = "ex" THEN {Tok(j)} ELSE {})
            ELSE PR(ScalarVal(T, j), {})
  ELSE CASE T.k \in {"vec", "set"} -> IF j.t # "arr" THEN PF(Tok(j), {}) ELSE PaSeq(T.e, TRUE, j.av, 1, <<>>, {})
         [] T.k \in {"arr", "tup"} ->
              IF j.t # "arr" THEN PF(Tok(j), {})
              ELSE LET n == IF T.k = "arr" THEN T.n ELSE Len(T.e)
                       r == PaSeq(T.e, T.k = "arr", Take(j.av, n), 1, <<>>, {})
                   IN IF ~r.ok THEN r
                      ELSE IF Len(j.av) > n THEN PF(Tok(j.av[n + 1]), r.dc)
                      ELSE IF Len(j.av) < n THEN PF(<<j.c, j.cz>>, r.dc)
                      ELSE r
         [] T.k \in {"map", "umap"} -> IF j.t # "obj" THEN PF(Tok(j), {}) ELSE PaMap(T.e[1], j.ov, 1, <<>>, {})
         [] T.k = "obj" -> IF j.t # "obj" THEN PF(Tok(j), {}) ELSE PaObj(T, j.ov, 1, InitObj(T), {})
         [] T.k \in {"uptr", "sptr"} ->
              LET r == Pa(T.e[1], j)
              \* every object is written in full, hence distinct: the position of its token identifies it
              IN IF r.ok THEN PR(<<IF T.k = "uptr" THEN 1 ELSE j.a + 1, r.v>>, r.dc) ELSE r
Par(t, j) == Pa(t, j)
=============================================================================
