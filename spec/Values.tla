------------------------------- MODULE Values -------------------------------
(* Values of the catalogued C++ types and when two of them are equal.         *)
(*   int, enumi [s, m] | float, double [d, f, fin] | str, bytes bytes         *)
(*   ts [d, s, n] | date [y, m, d] | enums index (from 0) | null 0 | bool     *)
(*   vec, set, arr, tup sequence | map, umap sequence of <<key, value>>       *)
(*   obj sequence of member values, an optional member as <<>> or <<v>>       *)
(*   uptr, sptr <<identity, value>>, identity 0 for null | var <<k, value>>   *)
(* The order of set elements and map entries is not significant, identities   *)
(* of shared objects matter up to renaming, per pointee type.                 *)
EXTENDS Base

RECURSIVE KeyAt(_, _, _)
KeyAt(m, key, i) == IF i > Len(m) THEN 0 ELSE IF m[i][1] = key THEN i ELSE KeyAt(m, key, i + 1)

\* Iso compares a and b under a correspondence of identities (a set of <<type, id in a, id in b>>) and returns it extended;
\* ok is FALSE when the values differ or the correspondence is not one-to-one
RECURSIVE Iso(_, _, _, _)
RECURSIVE IsoSeq(_, _, _, _, _, _)      \* ts: sequence of types (or a single one, repeated)
RECURSIVE IsoMap(_, _, _, _, _)
RECURSIVE IsoSet(_, _, _, _, _)
RECURSIVE IsoObj(_, _, _, _, _)
IsoRes(ok, c) == [ok |-> ok, c |-> c]

IsoSeq(e, a, b, i, rep, c) ==
  IF i = 1 /\ rep /\ Len(a) > 4 /\ ~TY(e[1]).sh THEN IsoRes(\A k \in 1 .. Len(a) : Iso(e[1], a[k], b[k], {}).ok, c)
  ELSE IF i > Len(a) THEN IsoRes(TRUE, c)
  ELSE LET r == Iso(IF rep THEN e[1] ELSE e[i], a[i], b[i], c)
       IN IF r.ok THEN IsoSeq(e, a, b, i + 1, rep, r.c) ELSE r
IsoMap(t, a, b, i, c) ==
  IF i > Len(a) THEN IsoRes(TRUE, c)
  ELSE LET j == KeyAt(b, a[i][1], 1)
       IN IF j = 0 THEN IsoRes(FALSE, c)
          ELSE LET r == Iso(t, a[i][2], b[j][2], c) IN IF r.ok THEN IsoMap(t, a, b, i + 1, r.c) ELSE r
IsoSet(t, a, b, i, c) ==
  IF i > Len(a) THEN IsoRes(TRUE, c)
  ELSE LET J == {j \in 1 .. Len(b) : Iso(t, a[i], b[j], c).ok}
       IN IF J = {} THEN IsoRes(FALSE, c)
          ELSE LET r == Iso(t, a[i], b[CHOOSE j \in J : TRUE], c) IN IF r.ok THEN IsoSet(t, a, b, i + 1, r.c) ELSE r
IsoObj(T, a, b, i, c) ==
  IF i > Len(a) THEN IsoRes(TRUE, c)
  ELSE IF T.m[i].o = "opt"
       THEN IF Len(a[i]) # Len(b[i]) THEN IsoRes(FALSE, c)
            ELSE IF a[i] = <<>> THEN IsoObj(T, a, b, i + 1, c)
            ELSE LET r == Iso(T.m[i].t, a[i][1], b[i][1], c) IN IF r.ok THEN IsoObj(T, a, b, i + 1, r.c) ELSE r
       ELSE LET r == Iso(T.m[i].t, a[i], b[i], c) IN IF r.ok THEN IsoObj(T, a, b, i + 1, r.c) ELSE r

SeqSet(s) == {s[i] : i \in 1 .. Len(s)}

\* zeros of either sign are one element of a set
PosZero(x) == IF x.d = "8000000000000000" THEN [x EXCEPT !.d = "0000000000000000", !.f = IF @ = "" THEN "" ELSE "00000000"] ELSE x
Iso(t, a, b, c) ==
  LET T == TY(t) IN
  IF T.pl THEN IsoRes(a = b, c)
  ELSE CASE T.k \in {"vec", "arr"} -> IF Len(a) # Len(b) THEN IsoRes(FALSE, c) ELSE IsoSeq(T.e, a, b, 1, TRUE, c)
         [] T.k = "tup" -> IF Len(a) # Len(b) THEN IsoRes(FALSE, c) ELSE IsoSeq(T.e, a, b, 1, FALSE, c)
         [] T.k = "set" -> LET e == T.e[1] IN
                           IF TY(e).k \in {"float", "double"} THEN IsoRes({PosZero(x) : x \in SeqSet(a)} = {PosZero(x) : x \in SeqSet(b)}, c)
                           ELSE IF TY(e).pl THEN IsoRes(SeqSet(a) = SeqSet(b), c)
                           \* elements that are equal count once
                           ELSE IF ~TY(e).sh THEN IsoRes(/\ \A i \in 1 .. Len(a) : \E j \in 1 .. Len(b) : Iso(e, a[i], b[j], {}).ok
                                                         /\ \A j \in 1 .. Len(b) : \E i \in 1 .. Len(a) : Iso(e, a[i], b[j], {}).ok, c)
                           ELSE IF Len(a) # Len(b) THEN IsoRes(FALSE, c) ELSE IsoSet(e, a, b, 1, c)
         [] T.k \in {"map", "umap"} -> IF Len(a) # Len(b) THEN IsoRes(FALSE, c) ELSE IsoMap(T.e[1], a, b, 1, c)
         [] T.k = "obj" -> IsoObj(T, a, b, 1, c)
         [] T.k = "uptr" -> IF a[1] # b[1] THEN IsoRes(FALSE, c) ELSE IF a[1] = 0 THEN IsoRes(TRUE, c) ELSE Iso(T.e[1], a[2], b[2], c)
         [] T.k = "sptr" ->
              IF a[1] = 0 \/ b[1] = 0 THEN IsoRes(a[1] = b[1], c)
              ELSE LET pt == T.e[1]
                       known == {x \in c : x[1] = pt /\ (x[2] = a[1] \/ x[3] = b[1])}
                   IN IF known # {} THEN IsoRes(known = {<<pt, a[1], b[1]>>}, c)
                      ELSE Iso(pt, a[2], b[2], c \cup {<<pt, a[1], b[1]>>})
         [] T.k = "var" -> IF a[1] # b[1] THEN IsoRes(FALSE, c) ELSE Iso(T.e[a[1] + 1], a[2], b[2], c)
         [] OTHER -> IsoRes(a = b, c)

Eq(t, a, b) == IF TY(t).pl THEN a = b ELSE Iso(t, a, b, {}).ok

\* elements of a set occur once (the actual C++ container, as reported)
----------------------------------------------------------------------------
\* a value that JSON can represent: numbers are finite, dates exist and have a year of 4 digits
RECURSIVE Representable(_, _)
DateOk(v) == /\ v.y >= 0 /\ v.y <= 9999 /\ v.m >= 1 /\ v.m <= 12 /\ v.d >= 1
             /\ v.d <= (CASE v.m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] v.m \in {4, 6, 9, 11} -> 30
                          [] OTHER -> IF (v.y % 4 = 0 /\ v.y % 100 # 0) \/ v.y % 400 = 0 THEN 29 ELSE 28)
Representable(t, v) ==
  LET T == TY(t) IN
  IF ~T.pf THEN TRUE
  ELSE CASE T.k \in {"float", "double"} -> v.fin
         [] T.k = "date" -> DateOk(v)
         [] T.k \in {"vec", "set", "arr"} -> \A i \in 1 .. Len(v) : Representable(T.e[1], v[i])
         [] T.k = "tup" -> \A i \in 1 .. Len(v) : Representable(T.e[i], v[i])
         [] T.k \in {"map", "umap"} -> \A i \in 1 .. Len(v) : Representable(T.e[1], v[i][2])
         [] T.k = "obj" -> \A i \in 1 .. Len(v) : IF T.m[i].o = "opt" THEN v[i] = <<>> \/ Representable(T.m[i].t, v[i][1]) ELSE Representable(T.m[i].t, v[i])
         [] T.k \in {"uptr", "sptr"} -> Representable(T.e[1], v[2])
         [] T.k = "var" -> Representable(T.e[v[1] + 1], v[2])
         [] OTHER -> TRUE

\* does a shared object occur more than once (through pointers of one type)
RECURSIVE SharedIds(_, _)
SharedIds(t, v) ==
  LET T == TY(t) IN
  IF ~T.sh THEN <<>>
  ELSE CASE T.k \in {"vec", "set", "arr"} -> Flat([i \in 1 .. Len(v) |-> SharedIds(T.e[1], v[i])])
         [] T.k = "tup" -> Flat([i \in 1 .. Len(v) |-> SharedIds(T.e[i], v[i])])
         [] T.k \in {"map", "umap"} -> Flat([i \in 1 .. Len(v) |-> SharedIds(T.e[1], v[i][2])])
         [] T.k = "obj" -> Flat([i \in 1 .. Len(v) |-> IF T.m[i].o = "opt" THEN (IF v[i] = <<>> THEN <<>> ELSE SharedIds(T.m[i].t, v[i][1])) ELSE SharedIds(T.m[i].t, v[i])])
         [] T.k = "uptr" -> IF v[1] = 0 THEN <<>> ELSE SharedIds(T.e[1], v[2])
         [] T.k = "sptr" -> IF v[1] = 0 THEN <<>> ELSE <<<<T.e[1], v[1]>>>> \o SharedIds(T.e[1], v[2])
         [] T.k = "var" -> SharedIds(T.e[v[1] + 1], v[2])
         [] OTHER -> <<>>
RepeatsShared(t, v) == TY(t).sh /\ LET s == SharedIds(t, v) IN Cardinality(SeqSet(s)) # Len(s)

\* values whose readers give back something else by design: sub-second times are written as a whole second
RECURSIVE SubSecond(_, _)
SubSecond(t, v) ==
  LET T == TY(t) IN
  IF ~T.ts THEN FALSE
  ELSE CASE T.k = "ts" -> v.n # 0
         [] T.k \in {"vec", "set", "arr"} -> \E i \in 1 .. Len(v) : SubSecond(T.e[1], v[i])
         [] T.k = "tup" -> \E i \in 1 .. Len(v) : SubSecond(T.e[i], v[i])
         [] T.k \in {"map", "umap"} -> \E i \in 1 .. Len(v) : SubSecond(T.e[1], v[i][2])
         [] T.k = "obj" -> \E i \in 1 .. Len(v) : IF T.m[i].o = "opt" THEN v[i] # <<>> /\ SubSecond(T.m[i].t, v[i][1]) ELSE SubSecond(T.m[i].t, v[i])
         [] T.k \in {"uptr", "sptr"} -> v[1] # 0 /\ SubSecond(T.e[1], v[2])
         [] T.k = "var" -> SubSecond(T.e[v[1] + 1], v[2])
         [] OTHER -> FALSE
=============================================================================
