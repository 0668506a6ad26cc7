------------------------------- MODULE Schema -------------------------------
(* JSON Schema.  SchemaOf(t) is the schema of a type, Conf(root, s, j) says   *)
(* whether a document conforms to a schema (an interpreter of the keywords    *)
(* that occur), Describes(root, s, t) whether a schema says exactly what is   *)
(* known about a type.  Strict and Lax bound what a schema of a type may      *)
(* accept: it accepts what is strictly of the type and nothing that is not    *)
(* even loosely of the type (an enumeration name or a date may be described   *)
(* as any string).                                                            *)
EXTENDS Judge

kRef == <<36, 114, 101, 102>>
kType == <<116, 121, 112, 101>>
kMinimum == <<109, 105, 110, 105, 109, 117, 109>>
kMaximum == <<109, 97, 120, 105, 109, 117, 109>>
kEnum == <<101, 110, 117, 109>>
kItems == <<105, 116, 101, 109, 115>>
kPrefixItems == <<112, 114, 101, 102, 105, 120, 73, 116, 101, 109, 115>>
kMinItems == <<109, 105, 110, 73, 116, 101, 109, 115>>
kMaxItems == <<109, 97, 120, 73, 116, 101, 109, 115>>
kUniqueItems == <<117, 110, 105, 113, 117, 101, 73, 116, 101, 109, 115>>
kProperties == <<112, 114, 111, 112, 101, 114, 116, 105, 101, 115>>
kRequired == <<114, 101, 113, 117, 105, 114, 101, 100>>
kAdditionalProperties == <<97, 100, 100, 105, 116, 105, 111, 110, 97, 108, 80, 114, 111, 112, 101, 114, 116, 105, 101, 115>>
kOneOf == <<111, 110, 101, 79, 102>>
kFormat == <<102, 111, 114, 109, 97, 116>>
kContentEncoding == <<99, 111, 110, 116, 101, 110, 116, 69, 110, 99, 111, 100, 105, 110, 103>>
kDefinitions == <<100, 101, 102, 105, 110, 105, 116, 105, 111, 110, 115>>
kNull == <<110, 117, 108, 108>>
kBoolean == <<98, 111, 111, 108, 101, 97, 110>>
kInteger == <<105, 110, 116, 101, 103, 101, 114>>
kNumber == <<110, 117, 109, 98, 101, 114>>
kString == <<115, 116, 114, 105, 110, 103>>
kArray == <<97, 114, 114, 97, 121>>
kObject == <<111, 98, 106, 101, 99, 116>>
kBase64 == <<98, 97, 115, 101, 54, 52>>
kDateTime == <<100, 97, 116, 101, 45, 116, 105, 109, 101>>
kDate == <<100, 97, 116, 101>>

----------------------------------------------------------------------------
Has(s, k) == s.t = "obj" /\ FindKey(s.ov, k, 1) # 0
Get(s, k) == s.ov[FindKey(s.ov, k, 1)].n
IsStr(s, k, x) == Has(s, k) /\ Get(s, k).t = "str" /\ Get(s, k).sv = x
IsInt(s, k, x) == Has(s, k) /\ Get(s, k).t = "num" /\ Get(s, k).i /\ CmpI(Get(s, k), x) = 0
\* what a reference names: an entry of an object at the top of the document
Names(root) == UNION {IF root.ov[i].n.t = "obj" THEN {<<i, q>> : q \in 1 .. Len(root.ov[i].n.ov)} ELSE {} : i \in 1 .. Len(root.ov)}
RefText(root, p) == <<35>> \o SubName(SubName(<<>>, root.ov[p[1]].k), root.ov[p[1]].n.ov[p[2]].k)
Found(root, r) == r.t = "str" /\ (r.sv = <<35>> \/ \E p \in Names(root) : RefText(root, p) = r.sv)
Target(root, r) == IF r.sv = <<35>> THEN root ELSE LET p == CHOOSE q \in Names(root) : RefText(root, q) = r.sv IN root.ov[p[1]].n.ov[p[2]].n
RECURSIVE Refs(_)
Refs(s) ==
  CASE s.t = "arr" -> UNION {Refs(s.av[i]) : i \in 1 .. Len(s.av)}
    [] s.t = "obj" -> UNION {IF s.ov[i].k = kRef /\ s.ov[i].n.t = "str" THEN {s.ov[i].n} ELSE Refs(s.ov[i].n) : i \in 1 .. Len(s.ov)}
    [] OTHER -> {}

\* ---- conformance of a document -----------------------------------------------------------------------------------------
Fuel == 40
TypeOk(x, j) ==
  CASE x = kNull -> j.t = "null" [] x = kBoolean -> j.t = "b" [] x = kInteger -> j.t = "num" /\ j.i [] x = kNumber -> j.t = "num"
    [] x = kString -> j.t = "str" [] x = kArray -> j.t = "arr" [] x = kObject -> j.t = "obj" [] OTHER -> FALSE
RECURSIVE Conf_(_, _, _, _)
Conf_(root, s, j, fuel) ==
  IF s.t = "b" THEN s.bv
  ELSE IF s.t # "obj" THEN FALSE
  ELSE IF Has(s, kRef) THEN fuel > 0 /\ Found(root, Get(s, kRef)) /\ Conf_(root, Target(root, Get(s, kRef)), j, fuel - 1)
  ELSE
    /\ Has(s, kType) => Get(s, kType).t = "str" /\ TypeOk(Get(s, kType).sv, j)
    /\ Has(s, kMinimum) /\ j.t = "num" /\ j.i => CmpI(Get(s, kMinimum), j) <= 0
    /\ Has(s, kMaximum) /\ j.t = "num" /\ j.i => CmpI(j, Get(s, kMaximum)) <= 0
    /\ Has(s, kEnum) => \E i \in 1 .. Len(Get(s, kEnum).av) : Same(Get(s, kEnum).av[i], j)
    /\ j.t = "arr" =>
         LET n == Len(j.av)  P == IF Has(s, kPrefixItems) THEN Get(s, kPrefixItems).av ELSE <<>> IN
         /\ \A i \in 1 .. n : IF i <= Len(P) THEN Conf_(root, P[i], j.av[i], Fuel) ELSE Has(s, kItems) => Conf_(root, Get(s, kItems), j.av[i], Fuel)
         /\ Has(s, kMinItems) => CmpI(Get(s, kMinItems), IntOf(n)) <= 0
         /\ Has(s, kMaxItems) => CmpI(IntOf(n), Get(s, kMaxItems)) <= 0
         /\ Has(s, kUniqueItems) /\ Get(s, kUniqueItems).bv => \A a, b \in 1 .. n : a < b => ~Same(j.av[a], j.av[b])
    /\ j.t = "obj" =>
         /\ Has(s, kRequired) => \A i \in 1 .. Len(Get(s, kRequired).av) : Has(j, Get(s, kRequired).av[i].sv)
         /\ \A i \in 1 .. Len(j.ov) :
              IF Has(s, kProperties) /\ Has(Get(s, kProperties), j.ov[i].k) THEN Conf_(root, Get(Get(s, kProperties), j.ov[i].k), j.ov[i].n, Fuel)
              ELSE Has(s, kAdditionalProperties) => Conf_(root, Get(s, kAdditionalProperties), j.ov[i].n, Fuel)
    /\ Has(s, kOneOf) => \E i \in 1 .. Len(Get(s, kOneOf).av) : Conf_(root, Get(s, kOneOf).av[i], j, fuel - 1)
Conf(root, j) == Conf_(root, root, j, Fuel)

\* ---- what a schema of a type may accept --------------------------------------------------------------------------------
RECURSIVE Fits(_, _, _)
Fits(t, j, strict) ==
  LET T == TY(t) IN
  CASE T.k = "int" -> j.t = "num" /\ j.i /\ InRange(j, T.lo, T.hi)
    [] T.k = "enumi" -> j.t = "num" /\ j.i /\ (strict => InRange(j, T.lo, T.hi))
    [] T.k \in {"float", "double"} -> j.t = "num" /\ (strict => ScalarOk(T, j))
    [] IsScalar(T) -> IF strict THEN ScalarOk(T, j) ELSE IF T.k = "null" THEN j.t = "null" ELSE IF T.k = "bool" THEN j.t = "b" ELSE j.t = "str"
    [] T.k \in {"vec", "set"} ->
         /\ j.t = "arr" /\ \A i \in 1 .. Len(j.av) : Fits(T.e[1], j.av[i], strict)
         /\ T.k = "set" /\ strict => \A a, b \in 1 .. Len(j.av) : a < b => ~Same(j.av[a], j.av[b])
    [] T.k \in {"arr", "tup"} -> j.t = "arr" /\ Len(j.av) = (IF T.k = "arr" THEN T.n ELSE Len(T.e)) /\ \A i \in 1 .. Len(j.av) : Fits(IF T.k = "arr" THEN T.e[1] ELSE T.e[i], j.av[i], strict)
    [] T.k \in {"map", "umap"} -> j.t = "obj" /\ \A i \in 1 .. Len(j.ov) : Fits(T.e[1], j.ov[i].n, strict)
    [] T.k = "obj" ->
         /\ j.t = "obj"
         /\ \A k \in 1 .. Len(T.m) : T.m[k].o = "req" => Has(j, T.m[k].nm)
         /\ \A i \in 1 .. Len(j.ov) : LET k == MemberNamed(T.m, j.ov[i].k, 1) IN IF k = 0 THEN ~strict ELSE Fits(T.m[k].t, j.ov[i].n, strict)
    [] T.k \in {"uptr", "sptr"} -> Fits(T.e[1], j, strict)
    [] T.k = "var" -> \E k \in 1 .. Len(T.e) : Fits(T.e[k], j, strict)
\* elements of a set that are pointers may be equal
RECURSIVE PtrIn(_)
PtrIn(t) == LET T == TY(t) IN T.k \in {"uptr", "sptr"} \/ (T.k \in {"vec", "set", "arr", "tup"} /\ \E i \in 1 .. Len(T.e) : PtrIn(T.e[i]))
RECURSIVE HasPtrSet(_, _)
HasPtrSet(t, seen) ==
  LET T == TY(t)  S == seen \cup {t} IN
  t \notin seen /\ (IF T.k = "set" /\ PtrIn(T.e[1]) THEN TRUE ELSE (\E i \in 1 .. Len(T.e) : HasPtrSet(T.e[i], S)) \/ (\E i \in 1 .. Len(T.m) : HasPtrSet(T.m[i].t, S)))

\* ---- description of a type ---------------------------------------------------------------------------------------------
ArrBounds(s) == Has(s, kMinItems) \/ Has(s, kMaxItems) \/ Has(s, kPrefixItems)
SetOfStr(a) == {a.av[i].sv : i \in 1 .. Len(a.av)}
RECURSIVE De_(_, _, _, _, _)
De_(root, s, t, seen, fuel) ==
  LET T == TY(t) IN
  IF s.t # "obj" THEN FALSE
  ELSE IF T.k \in {"uptr", "sptr"} THEN De_(root, s, T.e[1], seen, fuel)
  ELSE IF Has(s, kRef)
  THEN LET r == Get(s, kRef) IN fuel > 0 /\ Found(root, r) /\ (<<r.sv, t>> \in seen \/ De_(root, Target(root, r), t, seen \cup {<<r.sv, t>>}, fuel - 1))
  ELSE CASE T.k = "null" -> IsStr(s, kType, kNull)
         [] T.k = "bool" -> IsStr(s, kType, kBoolean)
         [] T.k = "int" -> IsStr(s, kType, kInteger) /\ IsInt(s, kMinimum, T.lo) /\ IsInt(s, kMaximum, T.hi) /\ ~Has(s, kEnum)
         [] T.k = "enumi" -> IsStr(s, kType, kInteger) /\ (Has(s, kMinimum) => IsInt(s, kMinimum, T.lo)) /\ (Has(s, kMaximum) => IsInt(s, kMaximum, T.hi)) /\ ~Has(s, kEnum)
         [] T.k \in {"float", "double"} -> IsStr(s, kType, kNumber) /\ ~Has(s, kMinimum) /\ ~Has(s, kMaximum)
         [] T.k = "str" -> IsStr(s, kType, kString) /\ ~Has(s, kFormat) /\ ~Has(s, kContentEncoding) /\ ~Has(s, kEnum)
         [] T.k = "bytes" -> IsStr(s, kType, kString) /\ IsStr(s, kContentEncoding, kBase64)
         [] T.k = "ts" -> IsStr(s, kType, kString) /\ IsStr(s, kFormat, kDateTime)
         [] T.k = "date" -> IsStr(s, kType, kString) /\ IsStr(s, kFormat, kDate)
         [] T.k = "enums" -> IsStr(s, kType, kString) /\ (Has(s, kEnum) => SetOfStr(Get(s, kEnum)) = {T.nms[i] : i \in 1 .. Len(T.nms)})
         [] T.k \in {"vec", "set"} ->
              /\ IsStr(s, kType, kArray) /\ ~ArrBounds(s) /\ Has(s, kItems) /\ De_(root, Get(s, kItems), T.e[1], seen, Fuel)
              /\ T.k = "vec" /\ Has(s, kUniqueItems) => ~Get(s, kUniqueItems).bv
              /\ T.k = "set" /\ ~PtrIn(T.e[1]) => Has(s, kUniqueItems) /\ Get(s, kUniqueItems).bv
         [] T.k = "arr" ->
              /\ IsStr(s, kType, kArray) /\ ~Has(s, kPrefixItems) /\ IsInt(s, kMinItems, IntOf(T.n)) /\ IsInt(s, kMaxItems, IntOf(T.n))
              /\ IF Has(s, kItems) THEN De_(root, Get(s, kItems), T.e[1], seen, Fuel) ELSE T.n = 0
              /\ Has(s, kUniqueItems) => ~Get(s, kUniqueItems).bv
         [] T.k = "tup" ->
              LET n == Len(T.e)  P == IF Has(s, kPrefixItems) THEN Get(s, kPrefixItems).av ELSE <<>> IN
              /\ IsStr(s, kType, kArray) /\ IsInt(s, kMinItems, IntOf(n)) /\ IsInt(s, kMaxItems, IntOf(n))
              /\ Len(P) = n /\ \A i \in 1 .. n : De_(root, P[i], T.e[i], seen, Fuel)
              /\ Has(s, kUniqueItems) => ~Get(s, kUniqueItems).bv
         [] T.k \in {"map", "umap"} ->
              /\ IsStr(s, kType, kObject) /\ Has(s, kAdditionalProperties) /\ De_(root, Get(s, kAdditionalProperties), T.e[1], seen, Fuel)
              /\ (Has(s, kProperties) => Get(s, kProperties).ov = <<>>) /\ (Has(s, kRequired) => Get(s, kRequired).av = <<>>)
         [] T.k = "obj" ->
              LET P == IF Has(s, kProperties) THEN Get(s, kProperties).ov ELSE <<>> IN
              /\ IsStr(s, kType, kObject)
              /\ Len(P) = Len(T.m) /\ {P[i].k : i \in 1 .. Len(P)} = {T.m[i].nm : i \in 1 .. Len(T.m)}
              /\ \A i \in 1 .. Len(T.m) : De_(root, P[FindKey(P, T.m[i].nm, 1)].n, T.m[i].t, seen, Fuel)
              /\ (IF Has(s, kRequired) THEN SetOfStr(Get(s, kRequired)) ELSE {}) = {T.m[i].nm : i \in {k \in 1 .. Len(T.m) : T.m[k].o = "req"}}
         [] T.k = "var" ->
              /\ Has(s, kOneOf) /\ LET A == Get(s, kOneOf).av IN
                   /\ \A i \in 1 .. Len(T.e) : \E q \in 1 .. Len(A) : De_(root, A[q], T.e[i], seen, Fuel)
                   /\ \A q \in 1 .. Len(A) : \E i \in 1 .. Len(T.e) : De_(root, A[q], T.e[i], seen, Fuel)
Describes(root, t) == De_(root, root, t, {}, Fuel)
RefsResolve(root) == \A r \in Refs(root) : Found(root, r)

\* ---- the schema of a type ----------------------------------------------------------------------------------------------
RECURSIVE Within_(_, _)
Kids(t) == {TY(t).e[i] : i \in 1 .. Len(TY(t).e)} \cup {TY(t).m[i].t : i \in 1 .. Len(TY(t).m)}
Within_(S, new) == IF new = {} THEN S ELSE LET nx == UNION {Kids(t) : t \in new} IN Within_(S \cup nx, nx \ (S \cup new))
ReachOf(t) == Within_({t}, {t})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
Str(k, x) == DEnt(k, DStr(x))
RECURSIVE Sub(_)
RECURSIVE Body(_)
Body(t) ==
  LET T == TY(t) IN
  CASE T.k = "null" -> <<Str(kType, kNull)>> [] T.k = "bool" -> <<Str(kType, kBoolean)>>
    [] T.k = "int" -> <<Str(kType, kInteger), DEnt(kMinimum, DInt(T.lo)), DEnt(kMaximum, DInt(T.hi))>>
    [] T.k = "enumi" -> <<Str(kType, kInteger)>> [] T.k \in {"float", "double"} -> <<Str(kType, kNumber)>>
    [] T.k \in {"str", "enums"} -> <<Str(kType, kString)>> [] T.k = "bytes" -> <<Str(kType, kString), Str(kContentEncoding, kBase64)>>
    [] T.k = "ts" -> <<Str(kType, kString), Str(kFormat, kDateTime)>> [] T.k = "date" -> <<Str(kType, kString), Str(kFormat, kDate)>>
    [] T.k = "vec" -> <<Str(kType, kArray), DEnt(kItems, Sub(T.e[1]))>>
    [] T.k = "set" -> <<Str(kType, kArray), DEnt(kItems, Sub(T.e[1])), DEnt(kUniqueItems, DBool(TRUE))>>
    [] T.k = "arr" -> <<Str(kType, kArray), DEnt(kItems, Sub(T.e[1])), DEnt(kMinItems, DInt(IntOf(T.n))), DEnt(kMaxItems, DInt(IntOf(T.n)))>>
    [] T.k = "tup" -> <<Str(kType, kArray), DEnt(kPrefixItems, DArr([i \in 1 .. Len(T.e) |-> Sub(T.e[i])])), DEnt(kMinItems, DInt(IntOf(Len(T.e)))), DEnt(kMaxItems, DInt(IntOf(Len(T.e))))>>
    [] T.k \in {"map", "umap"} -> <<Str(kType, kObject), DEnt(kAdditionalProperties, Sub(T.e[1]))>>
    [] T.k = "obj" ->
         LET req == SelectSeq(T.m, LAMBDA m : m.o = "req") IN
         <<Str(kType, kObject), DEnt(kProperties, DObj([i \in 1 .. Len(T.m) |-> DEnt(T.m[i].nm, Sub(T.m[i].t))])),
           DEnt(kRequired, DArr([i \in 1 .. Len(req) |-> DStr(req[i].nm)])), DEnt(kAdditionalProperties, DBool(FALSE))>>
    [] T.k = "var" -> <<DEnt(kOneOf, DArr([i \in 1 .. Len(T.e) |-> Sub(T.e[i])]))>>
    [] T.k \in {"uptr", "sptr"} -> Body(T.e[1])
Sub(t) ==
  LET T == TY(t) IN
  CASE T.k \in {"uptr", "sptr"} -> Sub(T.e[1])
    [] T.k = "obj" -> DObj(<<Str(kRef, <<35>> \o SubName(SubName(<<>>, kDefinitions), Digits(t)))>>)
    [] OTHER -> DObj(Body(t))
SchemaOf(t) ==
  LET C == SeqOf({x \in ReachOf(t) : TY(x).k = "obj"})
  IN DObj((IF C = <<>> THEN <<>> ELSE <<DEnt(kDefinitions, DObj([i \in 1 .. Len(C) |-> DEnt(Digits(C[i]), DObj(Body(C[i])))]))>>) \o Body(t))
=============================================================================
