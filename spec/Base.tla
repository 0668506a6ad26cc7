-------------------------------- MODULE Base --------------------------------
(* Numbers, texts and the type catalogue.                                    *)
(* Integers are records [s, m]: sign (0/1) and magnitude as little-endian    *)
(* limbs in base 10000 without trailing zeros, so that the whole 64-bit      *)
(* range is available (TLC integers have 32 bits).  Texts are sequences of   *)
(* bytes.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Types == JsonDeserialize(IOEnv.TYPES)
TY(t) == Types[t]
TypeIds == 1 .. Len(Types)

----------------------------------------------------------------------------
LIMB == 10000

RECURSIVE CmpMag(_, _, _)
CmpMag(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpMag(a, b, i - 1)
CmpM(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpMag(a, b, Len(a))
CmpI(x, y) == IF x.s # y.s THEN (IF x.s = 1 THEN -1 ELSE 1) ELSE IF x.s = 0 THEN CmpM(x.m, y.m) ELSE CmpM(y.m, x.m)
InRange(x, lo, hi) == CmpI(lo, x) <= 0 /\ CmpI(x, hi) <= 0

RECURSIVE IncM(_)
IncM(m) == IF m = <<>> THEN <<1>> ELSE IF m[1] < LIMB - 1 THEN <<m[1] + 1>> \o Tail(m) ELSE <<0>> \o IncM(Tail(m))
RECURSIVE DecM(_)
\* precondition: the magnitude is not zero
DecM(m) == IF m[1] > 0 THEN (IF m[1] = 1 /\ Len(m) = 1 THEN <<>> ELSE <<m[1] - 1>> \o Tail(m)) ELSE <<LIMB - 1>> \o DecM(Tail(m))
SuccI(x) == IF x.s = 0 THEN [s |-> 0, m |-> IncM(x.m)] ELSE LET d == DecM(x.m) IN [s |-> IF d = <<>> THEN 0 ELSE 1, m |-> d]
PredI(x) == IF x.s = 1 THEN [s |-> 1, m |-> IncM(x.m)] ELSE IF x.m = <<>> THEN [s |-> 1, m |-> <<1>>] ELSE [s |-> 0, m |-> DecM(x.m)]
NegI(x) == [s |-> IF x.m = <<>> THEN 0 ELSE 1 - x.s, m |-> x.m]

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % LIMB>> \o LimbsOf(n \div LIMB)
IntOf(n) == IF n < 0 THEN [s |-> 1, m |-> LimbsOf(-n)] ELSE [s |-> 0, m |-> LimbsOf(n)]
Zero == IntOf(0)

\* magnitude + magnitude and magnitude * small, used to build powers of two
RECURSIVE AddM(_, _, _)
AddM(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
       IN <<x % LIMB>> \o AddM(IF a = <<>> THEN <<>> ELSE Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), x \div LIMB)
RECURSIVE Pow2M(_)
Pow2M(k) == IF k = 0 THEN <<1>> ELSE LET h == Pow2M(k - 1) IN AddM(h, h, 0)
Pow2(k) == [s |-> 0, m |-> Pow2M(k)]

----------------------------------------------------------------------------
\* texts
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

Pad(n, w) == LET d == Digits(n) IN [i \in 1 .. (IF Len(d) >= w THEN 0 ELSE w - Len(d)) |-> 48] \o d

Slash == 47
Tilde == 126
\* RFC 6901 escaping of one reference token
RECURSIVE EscToken(_)
EscToken(s) ==
  IF s = <<>> THEN <<>>
  ELSE (CASE s[1] = Tilde -> <<Tilde, 48>> [] s[1] = Slash -> <<Tilde, 49>> [] OTHER -> <<s[1]>>) \o EscToken(Tail(s))
NeedsEsc(s) == \E i \in 1 .. Len(s) : s[i] = Tilde \/ s[i] = Slash
SubName(path, name) == path \o <<Slash>> \o (IF NeedsEsc(name) THEN EscToken(name) ELSE name)
SubIndex(path, i) == path \o <<Slash>> \o Digits(i)       \* zero-based index

RECURSIVE IndexIn(_, _, _)
IndexIn(x, seq, i) == IF i > Len(seq) THEN 0 ELSE IF seq[i] = x THEN i ELSE IndexIn(x, seq, i + 1)

RECURSIVE FlattenSeq_(_, _)
FlattenSeq_(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenSeq_(ss, i + 1)
Flat(ss) == FlattenSeq_(ss, 1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Take(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
=============================================================================
