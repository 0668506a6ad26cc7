------------------------------- MODULE Accept -------------------------------
(* The DOM deserializer.  Des(t, j) yields                                    *)
(*   ok   the document matches the type                                       *)
(*   v    the value it denotes (if ok)                                        *)
(*   errs the places at which it does not match, as JSON pointers: any of     *)
(*        them may be reported                                                *)
(* The state is the table of shared objects completed so far, a sequence of   *)
(* [p, t, v] (path, pointee type, pointer value), and the number of           *)
(* identities used.                                                           *)
EXTENDS Emit

RECURSIVE TabPath(_, _, _, _)
TabPath(tab, t, p, i) == IF i > Len(tab) THEN 0 ELSE IF tab[i].t = t /\ tab[i].p = p THEN i ELSE TabPath(tab, t, p, i + 1)

AR(v, st) == [ok |-> TRUE, v |-> v, st |-> st, errs |-> {}]
AF(errs, st) == [ok |-> FALSE, v |-> 0, st |-> st, errs |-> errs]

\* kind-specific admission of scalars: the value, or nothing
ScalarOk(T, j) ==
  CASE T.k = "null" -> j.t = "null"
    [] T.k = "bool" -> j.t = "b"
    [] T.k \in {"int", "enumi"} -> j.t = "num" /\ j.i /\ InRange(j, T.lo, T.hi)
    [] T.k = "float" -> j.t = "num" /\ j.fr
    [] T.k = "double" -> j.t = "num"
    [] T.k = "str" -> j.t = "str"
    [] T.k = "bytes" -> j.t = "str" /\ WellFormed(j.sv)
    [] T.k = "ts" -> j.t = "str" /\ TimeAdmitted(j.sv)
    [] T.k = "date" -> j.t = "str" /\ DateAdmitted(j.sv)
    [] T.k = "enums" -> j.t = "str" /\ IndexIn(j.sv, T.nms, 1) # 0
ScalarVal(T, j) ==
  CASE T.k = "null" -> 0
    [] T.k = "bool" -> j.bv
    [] T.k \in {"int", "enumi"} -> [s |-> j.s, m |-> j.m]
    [] T.k = "float" -> [d |-> j.fd, f |-> j.f, fin |-> TRUE]
    [] T.k = "double" -> [d |-> j.d, f |-> "", fin |-> TRUE]
    [] T.k = "str" -> j.sv
    [] T.k = "bytes" -> Decode(j.sv)
    [] T.k = "ts" -> TimeOf(j.sv)
    [] T.k = "date" -> DateOf(j.sv)
    [] T.k = "enums" -> IndexIn(j.sv, T.nms, 1) - 1
IsScalar(T) == T.k \in {"null", "bool", "int", "enumi", "float", "double", "str", "bytes", "ts", "date", "enums"}

RECURSIVE De(_, _, _, _)
RECURSIVE DeSeq(_, _, _, _, _, _, _, _)
RECURSIVE DeMap(_, _, _, _, _, _, _)
RECURSIVE DeObj(_, _, _, _, _, _, _)
RECURSIVE DeVar(_, _, _, _, _)

\* elements that hold no shared pointers do not touch the table: all at once
DeAll(t, js, path, st) ==
  LET rs == TLCEval([i \in 1 .. Len(js) |-> De(t, js[i], SubIndex(path, i - 1), st)])
      bad == {i \in 1 .. Len(js) : ~rs[i].ok}
  IN IF bad = {} THEN AR(TLCEval([i \in 1 .. Len(js) |-> rs[i].v]), st) ELSE AF(UNION {rs[i].errs : i \in bad}, st)
DeSeq(e, rep, js, i, path, st, vs, errs) ==
  IF i = 1 /\ rep /\ Len(js) > 4 /\ ~TY(e[1]).sh THEN DeAll(e[1], js, path, st)
  ELSE IF i > Len(js) THEN (IF errs = {} THEN AR(vs, st) ELSE AF(errs, st))
  ELSE LET r == De(IF rep THEN e[1] ELSE e[i], js[i], SubIndex(path, i - 1), st)
       IN DeSeq(e, rep, js, i + 1, path, r.st, IF r.ok THEN Append(vs, r.v) ELSE vs, errs \cup r.errs)
DeMap(t, ov, i, path, st, vs, errs) ==
  IF i > Len(ov) THEN (IF errs = {} THEN AR(vs, st) ELSE AF(errs, st))
  ELSE LET r == De(t, ov[i].n, SubName(path, ov[i].k), st)
       IN DeMap(t, ov, i + 1, path, r.st, IF r.ok THEN Append(vs, <<ov[i].k, r.v>>) ELSE vs, errs \cup r.errs)
\* members are read in the order in which the class declares them; names the class does not have are ignored
DeObj(T, ov, i, path, st, vs, errs) ==
  IF i > Len(T.m) THEN (IF errs = {} THEN AR(vs, st) ELSE AF(errs, st))
  ELSE LET M == T.m[i]  k == FindKey(ov, M.nm, 1) IN
       IF k = 0
       THEN IF M.o = "req" THEN DeObj(T, ov, i + 1, path, st, vs, errs \cup {path})
            ELSE DeObj(T, ov, i + 1, path, st, Append(vs, IF M.o = "opt" THEN <<>> ELSE M.iv), errs)
       ELSE LET r == De(M.t, ov[k].n, SubName(path, M.nm), st)
            IN DeObj(T, ov, i + 1, path, r.st, IF r.ok THEN Append(vs, IF M.o = "opt" THEN <<r.v>> ELSE r.v) ELSE vs, errs \cup r.errs)
\* alternatives in order; one that does not match leaves no trace in the table
DeVar(T, j, path, st, k) ==
  IF k > Len(T.e) THEN AF({path}, st)
  ELSE LET r == De(T.e[k], j, path, st)
       IN IF r.ok THEN AR(<<k - 1, r.v>>, r.st) ELSE DeVar(T, j, path, st, k + 1)
De(t, j, path, st) ==
  LET T == TY(t) IN
  IF IsScalar(T) THEN (IF ScalarOk(T, j) THEN AR(ScalarVal(T, j), st) ELSE AF({path}, st))
  ELSE CASE T.k \in {"vec", "set"} -> IF j.t # "arr" THEN AF({path}, st) ELSE DeSeq(T.e, TRUE, j.av, 1, path, st, <<>>, {})
         [] T.k \in {"arr", "tup"} ->
              IF j.t # "arr" THEN AF({path}, st)
              ELSE LET n == IF T.k = "arr" THEN T.n ELSE Len(T.e)
                       r == DeSeq(T.e, T.k = "arr", Take(j.av, n), 1, path, st, <<>>, {})
                   IN IF Len(j.av) = n THEN r ELSE AF({path} \cup r.errs, r.st)
         [] T.k \in {"map", "umap"} -> IF j.t # "obj" THEN AF({path}, st) ELSE DeMap(T.e[1], j.ov, 1, path, st, <<>>, {})
         [] T.k = "obj" -> IF j.t # "obj" THEN AF({path}, st) ELSE DeObj(T, j.ov, 1, path, st, <<>>, {})
         [] T.k = "uptr" -> LET r == De(T.e[1], j, path, st) IN IF r.ok THEN AR(<<1, r.v>>, r.st) ELSE r
         [] T.k = "sptr" ->
              LET pt == T.e[1]
                  k == IF j.t = "obj" THEN FindKey(j.ov, <<36, 114, 101, 102>>, 1) ELSE 0
              IN IF k # 0
                 THEN LET rn == j.ov[k].n
                          q == IF rn.t = "str" THEN TabPath(st.tab, pt, rn.sv, 1) ELSE 0
                      IN IF q # 0 THEN AR(st.tab[q].v, st) ELSE AF({path}, st)
                 ELSE LET id == st.c + 1
                          r == De(pt, j, path, [st EXCEPT !.c = id])
                      IN IF r.ok THEN AR(<<id, r.v>>, [r.st EXCEPT !.tab = Append(@, [p |-> path, t |-> pt, v |-> <<id, r.v>>])])
                         ELSE r
         [] T.k = "var" -> DeVar(T, j, path, st, 1)
St0 == [tab |-> <<>>, c |-> 0]
Des(t, j) == De(t, j, <<>>, St0)
DesOk(t, j) == Des(t, j).ok
=============================================================================
