-------------------------------- MODULE Judge --------------------------------
(* What the specification says about one recorded call of the library.        *)
(* An event records the type, the text read (as document j, or jv = FALSE if  *)
(* it is not JSON) or the value written (in), and the outcome of every form   *)
(* of the operation:                                                          *)
(*   pf  parse forms        [f, ok, ex, off, v]                               *)
(*   df  deserialize forms  [f, ok, ex, off, path, v]                         *)
(*   wf  output forms       [f, ok, ex, x]   x: index into docs               *)
(* v is an index into vals (0: none).  A facet is one way in which an event   *)
(* can contradict the specification.                                          *)
EXTENDS Parse

Depth0 == 32

\* ---- reading -------------------------------------------------------------------------------------------------------
PExp(ev) == Par(ev.t, ev.j)
DExp(ev) == Des(ev.t, ev.j)
TooDeep(ev) == ev.dep > Depth0

PMust(ev, r) == IF ~ev.jv \/ ~r.ok THEN "no" ELSE IF r.dc # {} \/ TooDeep(ev) THEN "any" ELSE "yes"
DMust(ev, r) == IF ~ev.jv \/ ~r.ok THEN "no" ELSE "yes"
Kept(must, ok) == CASE must = "yes" -> ok [] must = "no" -> ~ok [] OTHER -> TRUE

BadPOk(ev, r) == \E i \in 1 .. Len(ev.pf) : ~Kept(PMust(ev, r), ev.pf[i].ok)
BadDOk(ev, r) == \E i \in 1 .. Len(ev.df) : ~Kept(DMust(ev, r), ev.df[i].ok)
\* values are compared once per distinct value
Vs(fs) == {fs[i].v : i \in {k \in 1 .. Len(fs) : fs[k].ok}}
BadPVal(ev, r) == ev.jv /\ r.ok /\ \E k \in Vs(ev.pf) : k # 0 /\ ~Eq(ev.t, ev.vals[k], r.v)
BadDVal(ev, r) == ev.jv /\ r.ok /\ \E k \in Vs(ev.df) : k # 0 /\ ~Eq(ev.t, ev.vals[k], r.v)
BadPAgree(ev) == Len(ev.pf) > 0 /\ (Cardinality({ev.pf[i].ok : i \in 1 .. Len(ev.pf)}) > 1 \/ \E a, b \in Vs(ev.pf) : a # b /\ ~Eq(ev.t, ev.vals[a], ev.vals[b]))
BadDAgree(ev) == Len(ev.df) > 0 /\ (Cardinality({ev.df[i].ok : i \in 1 .. Len(ev.df)}) > 1 \/ \E a, b \in Vs(ev.df) : a # b /\ ~Eq(ev.t, ev.vals[a], ev.vals[b]))
\* whenever both readers accept they give equal objects (back-references are something only one of them knows)
BadPD(ev) == \E a \in Vs(ev.pf) : \E b \in Vs(ev.df) : a # b /\ ~Eq(ev.t, ev.vals[a], ev.vals[b])
\* one accepts and the other does not: only for the documented differences
RECURSIVE HasUnknown(_, _)
HasUnknown(t, j) ==
  LET T == TY(t) IN
  CASE T.k \in {"vec", "set", "arr"} -> j.t = "arr" /\ \E i \in 1 .. Len(j.av) : HasUnknown(T.e[1], j.av[i])
    [] T.k = "tup" -> j.t = "arr" /\ \E i \in 1 .. Len(j.av) : i <= Len(T.e) /\ HasUnknown(T.e[i], j.av[i])
    [] T.k \in {"map", "umap"} -> j.t = "obj" /\ \E i \in 1 .. Len(j.ov) : HasUnknown(T.e[1], j.ov[i].n)
    [] T.k = "obj" -> j.t = "obj" /\ \E i \in 1 .. Len(j.ov) : LET k == MemberNamed(T.m, j.ov[i].k, 1) IN k = 0 \/ HasUnknown(T.m[k].t, j.ov[i].n)
    [] T.k \in {"uptr", "sptr"} -> HasUnknown(T.e[1], j)
    [] OTHER -> FALSE
RECURSIVE HasMissing(_, _)
HasMissing(t, j) ==
  LET T == TY(t) IN
  CASE T.k \in {"vec", "set", "arr"} -> j.t = "arr" /\ \E i \in 1 .. Len(j.av) : HasMissing(T.e[1], j.av[i])
    [] T.k = "tup" -> j.t = "arr" /\ \E i \in 1 .. Len(j.av) : i <= Len(T.e) /\ HasMissing(T.e[i], j.av[i])
    [] T.k \in {"map", "umap"} -> j.t = "obj" /\ \E i \in 1 .. Len(j.ov) : HasMissing(T.e[1], j.ov[i].n)
    [] T.k = "obj" -> j.t = "obj" /\ \E k \in 1 .. Len(T.m) : LET i == FindKey(j.ov, T.m[k].nm, 1) IN IF i = 0 THEN T.m[k].o = "req" ELSE HasMissing(T.m[k].t, j.ov[i].n)
    [] T.k \in {"uptr", "sptr"} -> HasMissing(T.e[1], j)
    [] OTHER -> FALSE
RECURSIVE HasWideInt(_, _)
HasWideInt(t, j) ==
  LET T == TY(t) IN
  CASE T.k = "float" -> j.t = "num" /\ j.i /\ j.xf # "in"
    [] T.k = "double" -> j.t = "num" /\ j.i /\ j.xd # "in"
    [] T.k \in {"vec", "set", "arr"} -> j.t = "arr" /\ \E i \in 1 .. Len(j.av) : HasWideInt(T.e[1], j.av[i])
    [] T.k = "tup" -> j.t = "arr" /\ \E i \in 1 .. Len(j.av) : i <= Len(T.e) /\ HasWideInt(T.e[i], j.av[i])
    [] T.k \in {"map", "umap"} -> j.t = "obj" /\ \E i \in 1 .. Len(j.ov) : HasWideInt(T.e[1], j.ov[i].n)
    [] T.k = "obj" -> j.t = "obj" /\ \E i \in 1 .. Len(j.ov) : LET k == MemberNamed(T.m, j.ov[i].k, 1) IN k # 0 /\ HasWideInt(T.m[k].t, j.ov[i].n)
    [] T.k \in {"uptr", "sptr"} -> HasWideInt(T.e[1], j)
    [] OTHER -> FALSE
RECURSIVE HasRef(_)
HasRef(j) ==
  CASE j.t = "arr" -> \E i \in 1 .. Len(j.av) : HasRef(j.av[i])
    [] j.t = "obj" -> \E i \in 1 .. Len(j.ov) : IsRefEntry(j.ov[i]) \/ HasRef(j.ov[i].n)
    [] OTHER -> FALSE
Acc(fs) == \E i \in 1 .. Len(fs) : fs[i].ok
BadPDOk(ev) ==
  /\ Len(ev.pf) > 0 /\ Len(ev.df) > 0
  /\ Acc(ev.pf) # Acc(ev.df)
  /\ ~ev.jv \/ (IF Acc(ev.pf) THEN ~HasMissing(ev.t, ev.j) /\ ~HasRef(ev.j)
                ELSE ~HasUnknown(ev.t, ev.j) /\ ~HasWideInt(ev.t, ev.j) /\ ~TooDeep(ev) /\ ~HasRef(ev.j))

\* declared exception types: boolean forms never throw
Throwing == {"pt", "dt", "mt", "ot", "od", "wt", "st", "ds"}
BadPExc(ev) == \E i \in 1 .. Len(ev.pf) : LET f == ev.pf[i] IN IF f.f \in Throwing THEN ~f.ok /\ f.ex # "parse" ELSE f.ex # ""
BadDExc(ev) == \E i \in 1 .. Len(ev.df) : LET f == ev.df[i] IN IF f.f \in Throwing THEN ~f.ok /\ f.ex # (IF ev.jv THEN "deser" ELSE "parse") ELSE f.ex # ""
\* places of errors
Within(off, tok) == tok[1] <= off /\ off <= tok[2]
BadPOff(ev, r) ==
  \E i \in 1 .. Len(ev.pf) :
    LET f == ev.pf[i] IN
    /\ f.ex = "parse"
    /\ IF ~ev.jv \/ TooDeep(ev) THEN ~Within(f.off, <<0, ev.len>>)
       ELSE IF r.ok THEN (r.dc # {} /\ ~\E tk \in r.dc : Within(f.off, tk))
       ELSE ~\E tk \in r.dc \cup {r.at} : Within(f.off, tk)
BadDOff(ev) == ~ev.jv /\ \E i \in 1 .. Len(ev.df) : LET f == ev.df[i] IN f.ex = "parse" /\ ~Within(f.off, <<0, ev.len>>)
BadDPath(ev, r) ==
  ev.jv /\ ~r.ok /\ \E i \in 1 .. Len(ev.df) : LET f == ev.df[i] IN
    f.ex = "deser" /\ ~(f.path \in r.errs \/ (f.path = <<Slash>> /\ <<>> \in r.errs))

\* ---- writing -------------------------------------------------------------------------------------------------------
CanOut(ev) == Representable(ev.t, ev.in)
BadWOk(ev) == \E i \in 1 .. Len(ev.wf) : ev.wf[i].ok # CanOut(ev)
BadWExc(ev) == \E i \in 1 .. Len(ev.wf) : LET f == ev.wf[i] IN IF f.f \in Throwing THEN ~f.ok /\ f.ex # "ser" ELSE f.ex # ""
Xs(ev) == {ev.wf[i].x : i \in {k \in 1 .. Len(ev.wf) : ev.wf[k].ok}}
BadWValid(ev) == \E x \in Xs(ev) : ~ev.docs[x].ok \/ ev.docs[x].ws
Why(ev, x) == IF ev.docs[x].ok THEN Emitted(ev.t, ev.in, ev.docs[x].n) ELSE ""
BadWForm(ev) == CanOut(ev) /\ \E x \in Xs(ev) : Why(ev, x) = "form"
BadWRef(ev) == CanOut(ev) /\ \E x \in Xs(ev) : Why(ev, x) = "ref"
BadWAgree(ev) ==
  \/ Cardinality({ev.wf[i].ok : i \in 1 .. Len(ev.wf)}) > 1
  \/ \E x, y \in Xs(ev) : x < y /\ (~ev.docs[x].ok \/ ~ev.docs[y].ok \/ ~Same(ev.docs[x].n, ev.docs[y].n))
\* the forms of one way of output, called one after the other, give the same
Direct == {"wt", "wb", "ws"}
BadWRep(ev) == \E a, b \in 1 .. Len(ev.wf) : /\ a < b /\ (ev.wf[a].f \in Direct) = (ev.wf[b].f \in Direct)
                                            /\ (ev.wf[a].ok # ev.wf[b].ok \/ ev.wf[a].x # ev.wf[b].x)
\* reading back what was written
Rest(ev) == [pf |-> ev.pf, df |-> ev.df]
WText(ev) == ev.docs[ev.wf[1].x].n
BadRtP(ev) ==
  /\ CanOut(ev) /\ ev.wf # <<>> /\ ~RepeatsShared(ev.t, ev.in) /\ ev.dep <= Depth0
  /\ \E i \in 1 .. Len(ev.pf) : LET f == ev.pf[i] IN
       ~f.ok \/ f.v = 0 \/ (~SubSecond(ev.t, ev.in) /\ ~Eq(ev.t, ev.in, ev.vals[f.v]))
\* a variant comes back as the alternative it was unless an earlier one takes the document
BadRtD(ev) ==
  /\ CanOut(ev) /\ ev.wf # <<>>
  /\ \E i \in 1 .. Len(ev.df) : LET f == ev.df[i] IN
       IF TY(ev.t).va
       THEN \/ ~ev.jv
            \/ LET x == DExp(ev) IN f.ok # x.ok \/ (x.ok /\ (f.v = 0 \/ (~SubSecond(ev.t, ev.in) /\ ~Eq(ev.t, x.v, ev.vals[f.v]))))
       ELSE ~f.ok \/ f.v = 0 \/ (~SubSecond(ev.t, ev.in) /\ ~Eq(ev.t, ev.in, ev.vals[f.v]))

\* ---- all -----------------------------------------------------------------------------------------------------------
\* NB: in a write event j is the document that was written (when it is valid), so the reading facets apply as well
Bad(ev, F) ==
  IF ev.op = "dead" THEN {"dead"} ELSE
  LET pr == PExp(ev)
      dr == DExp(ev)
      P == Len(ev.pf) > 0
      D == Len(ev.df) > 0
      W == ev.op = "w"
  IN {f \in F :
       CASE f = "p.ok" -> P /\ BadPOk(ev, pr)
         [] f = "p.val" -> P /\ BadPVal(ev, pr)
         [] f = "p.agree" -> P /\ BadPAgree(ev)
         [] f = "p.exc" -> P /\ BadPExc(ev)
         [] f = "p.off" -> P /\ BadPOff(ev, pr)
         [] f = "d.ok" -> D /\ BadDOk(ev, dr)
         [] f = "d.val" -> D /\ BadDVal(ev, dr)
         [] f = "d.agree" -> D /\ BadDAgree(ev)
         [] f = "d.exc" -> D /\ BadDExc(ev)
         [] f = "d.off" -> D /\ BadDOff(ev)
         [] f = "d.path" -> D /\ BadDPath(ev, dr)
         [] f = "pd.val" -> P /\ D /\ ~(ev.jv /\ HasRef(ev.j)) /\ BadPD(ev)
         [] f = "pd.ok" -> P /\ D /\ BadPDOk(ev)
         [] f = "w.ok" -> W /\ BadWOk(ev)
         [] f = "w.exc" -> W /\ BadWExc(ev)
         [] f = "w.valid" -> W /\ BadWValid(ev)
         [] f = "w.form" -> W /\ BadWForm(ev)
         [] f = "w.ref" -> W /\ BadWRef(ev)
         [] f = "w.agree" -> W /\ BadWAgree(ev)
         [] f = "w.rep" -> W /\ BadWRep(ev)
         [] f = "w.dest" -> W /\ ~ev.dest
         [] f = "rt.p" -> W /\ P /\ BadRtP(ev)
         [] f = "rt.d" -> W /\ D /\ BadRtD(ev)
         [] f = "mod" -> ev.mod
         [] OTHER -> FALSE}
=============================================================================
