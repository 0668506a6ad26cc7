-------------------------------- MODULE Text --------------------------------
(* JSON texts (RFC 8259) as sequences of bytes, twice: as a machine that takes *)
(* a text byte by byte (Step, Accepting) and may build the document meanwhile  *)
(* (Build), and as a function from texts to documents (Read).  TextMC checks   *)
(* that the two agree.  A document has the nodes of Doc without positions, and *)
(* numbers as [t |-> "num", lit |-> the literal, o |-> its ordinal].           *)
EXTENDS Integers, Sequences, SequencesExt

Quote == 34   BackSlash == 92   Comma == 44   Colon == 58
LBrack == 91  RBrack == 93      LBrace == 123 RBrace == 125
Minus == 45   Plus == 43        Dot == 46     Nought == 48
Blank == {32, 9, 10, 13}
Digit == 48 .. 57
Digit19 == 49 .. 57
Exp == {69, 101}
HexDigit == Digit \cup (65 .. 70) \cup (97 .. 102)
Short == {34, 92, 47, 98, 102, 110, 114, 116}             \* " \ / b f n r t
wTrue == <<116, 114, 117, 101>>
wFalse == <<102, 97, 108, 115, 101>>
wNull == <<110, 117, 108, 108>>
Words == {wTrue, wFalse, wNull}

----------------------------------------------------------------------------
(* The machine.  State: mode m, what is open (sequence of "a" and "o"), and   *)
(* for a literal the word and the number of bytes taken.                      *)
Start == [m |-> "value", st |-> <<>>, w |-> <<>>, k |-> 0]
Dead == [m |-> "dead", st |-> <<>>, w |-> <<>>, k |-> 0]
To(s, mode) == [s EXCEPT !.m = mode]
Push(s, what, mode) == [s EXCEPT !.m = mode, !.st = Append(@, what)]
Pop(s) == [s EXCEPT !.m = "after", !.st = SubSeq(@, 1, Len(@) - 1)]
Top(s) == IF s.st = <<>> THEN "none" ELSE s.st[Len(s.st)]

After(s, c) ==                                           \* after a value
  CASE c \in Blank -> To(s, "after")
    [] c = Comma /\ Top(s) = "a" -> To(s, "value")
    [] c = Comma /\ Top(s) = "o" -> To(s, "name")
    [] c = RBrack /\ Top(s) = "a" -> Pop(s)
    [] c = RBrace /\ Top(s) = "o" -> Pop(s)
    [] OTHER -> Dead
Value(s, c) ==
  CASE c \in Blank -> s
    [] c = LBrack -> Push(s, "a", "first")
    [] c = LBrace -> Push(s, "o", "firstname")
    [] c = Quote -> To(s, "string")
    [] c = Minus -> To(s, "minus")
    [] c = Nought -> To(s, "zero")
    [] c \in Digit19 -> To(s, "int")
    [] \E w \in Words : w[1] = c -> [s EXCEPT !.m = "word", !.w = CHOOSE w \in Words : w[1] = c, !.k = 1]
    [] OTHER -> Dead
InString(s, c, this, esc, end) ==
  CASE c = Quote -> To(s, end) [] c = BackSlash -> To(s, esc) [] c >= 32 -> To(s, this) [] OTHER -> Dead
Step(s, c) ==
  CASE s.m = "value" -> Value(s, c)
    [] s.m = "first" -> IF c = RBrack THEN Pop(s) ELSE IF c \in Blank THEN s ELSE Value(s, c)
    [] s.m = "firstname" -> CASE c = RBrace -> Pop(s) [] c \in Blank -> s [] c = Quote -> To(s, "nstring") [] OTHER -> Dead
    [] s.m = "name" -> CASE c \in Blank -> s [] c = Quote -> To(s, "nstring") [] OTHER -> Dead
    [] s.m = "colon" -> CASE c \in Blank -> s [] c = Colon -> To(s, "value") [] OTHER -> Dead
    [] s.m = "after" -> After(s, c)
    [] s.m = "string" -> InString(s, c, "string", "escape", "after")
    [] s.m = "nstring" -> InString(s, c, "nstring", "nescape", "colon")
    [] s.m \in {"escape", "nescape"} ->
         CASE c \in Short -> To(s, IF s.m = "escape" THEN "string" ELSE "nstring")
           [] c = 117 -> [s EXCEPT !.m = IF s.m = "escape" THEN "hex" ELSE "nhex", !.k = 4]
           [] OTHER -> Dead
    [] s.m \in {"hex", "nhex"} ->
         CASE c \notin HexDigit -> Dead
           [] s.k > 1 -> [s EXCEPT !.k = @ - 1]
           [] OTHER -> [s EXCEPT !.k = 0, !.m = IF s.m = "hex" THEN "string" ELSE "nstring"]
    [] s.m = "minus" -> CASE c = Nought -> To(s, "zero") [] c \in Digit19 -> To(s, "int") [] OTHER -> Dead
    [] s.m = "zero" -> CASE c = Dot -> To(s, "dot") [] c \in Exp -> To(s, "exp") [] OTHER -> After(s, c)
    [] s.m = "int" -> CASE c \in Digit -> s [] c = Dot -> To(s, "dot") [] c \in Exp -> To(s, "exp") [] OTHER -> After(s, c)
    [] s.m = "dot" -> IF c \in Digit THEN To(s, "frac") ELSE Dead
    [] s.m = "frac" -> CASE c \in Digit -> s [] c \in Exp -> To(s, "exp") [] OTHER -> After(s, c)
    [] s.m = "exp" -> CASE c \in {Plus, Minus} -> To(s, "expsign") [] c \in Digit -> To(s, "expdigits") [] OTHER -> Dead
    [] s.m = "expsign" -> IF c \in Digit THEN To(s, "expdigits") ELSE Dead
    [] s.m = "expdigits" -> IF c \in Digit THEN s ELSE After(s, c)
    [] s.m = "word" -> IF c # s.w[s.k + 1] THEN Dead
                       ELSE IF s.k + 1 = Len(s.w) THEN [s EXCEPT !.m = "after", !.w = <<>>, !.k = 0] ELSE [s EXCEPT !.k = @ + 1]
    [] OTHER -> Dead
Accepting(s) == s.st = <<>> /\ s.m \in {"after", "zero", "int", "frac", "expdigits"}

RECURSIVE RunM(_, _, _)
RunM(b, i, s) == IF i > Len(b) \/ s.m = "dead" THEN s ELSE RunM(b, i + 1, Step(s, b[i]))
IsText(b) == Accepting(RunM(b, 1, Start))

----------------------------------------------------------------------------
(* The function.  Each reader takes the text and a position and gives a       *)
(* result and the position after it; position 0: not well-formed.             *)
At(b, p) == IF p > Len(b) THEN -1 ELSE b[p]
RECURSIVE Skip(_, _)
Skip(b, p) == IF At(b, p) \in Blank THEN Skip(b, p + 1) ELSE p
RECURSIVE Digs(_, _)
Digs(b, p) == IF At(b, p) \in Digit THEN Digs(b, p + 1) ELSE p
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Hex4(b, p) == IF p + 3 <= Len(b) /\ \A i \in p .. p + 3 : b[i] \in HexDigit
              THEN ((HexVal(b[p]) * 16 + HexVal(b[p + 1])) * 16 + HexVal(b[p + 2])) * 16 + HexVal(b[p + 3]) ELSE -1
Utf8(u) ==
  IF u < 128 THEN <<u>>
  ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
  ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
  ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Unesc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
Fail == [p |-> 0, v |-> <<>>]
High(u) == u \in 55296 .. 56319
Low(u) == u \in 56320 .. 57343

RECURSIVE PlainEnd(_, _)
\* position after the characters from p on that stand for themselves
PlainEnd(b, p) == IF At(b, p) >= 32 /\ At(b, p) \notin {Quote, BackSlash} THEN PlainEnd(b, p + 1) ELSE p
RECURSIVE Chars(_, _, _)
\* the characters from p to the closing quote; a lone surrogate stands as the (invalid) bytes of its own
Chars(b, p, acc) ==
  LET c == At(b, p) IN
  CASE c = Quote -> [p |-> p + 1, v |-> acc]
    [] c < 32 -> Fail
    [] c # BackSlash -> LET q == PlainEnd(b, p) IN Chars(b, q, acc \o SubSeq(b, p, q - 1))
    [] At(b, p + 1) \in Short -> Chars(b, p + 2, Append(acc, Unesc(b[p + 1])))
    [] At(b, p + 1) = 117 ->
         LET u == Hex4(b, p + 2)
             w == IF At(b, p + 6) = BackSlash /\ At(b, p + 7) = 117 THEN Hex4(b, p + 8) ELSE -1
         IN IF u < 0 THEN Fail
            ELSE IF High(u) /\ Low(w) THEN Chars(b, p + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320)))
            ELSE Chars(b, p + 6, acc \o Utf8(u))
    [] OTHER -> Fail

\* position after the number at p
NumEnd(b, p) ==
  LET a == IF At(b, p) = Minus THEN p + 1 ELSE p
      i == IF At(b, a) = Nought THEN a + 1 ELSE Digs(b, a)
      f == IF At(b, i) # Dot THEN i ELSE LET e == Digs(b, i + 1) IN IF e = i + 1 THEN 0 ELSE e
      x == IF At(b, f) \notin Exp THEN f
           ELSE LET g == IF At(b, f + 1) \in {Plus, Minus} THEN f + 2 ELSE f + 1
                    e == Digs(b, g) IN IF e = g THEN 0 ELSE e
  IN IF i = a THEN 0 ELSE IF f = 0 THEN 0 ELSE x

Starts(b, p, w) == p + Len(w) - 1 <= Len(b) /\ \A i \in 1 .. Len(w) : b[p + i - 1] = w[i]

RECURSIVE Val(_, _), Elements(_, _, _), Members(_, _, _)
Elements(b, p, acc) ==                                  \* p: where an element is expected
  LET r == Val(b, Skip(b, p)) IN
  IF r.p = 0 THEN Fail
  ELSE LET q == Skip(b, r.p) IN
       CASE At(b, q) = Comma -> Elements(b, q + 1, Append(acc, r.v))
         [] At(b, q) = RBrack -> [p |-> q + 1, v |-> [t |-> "arr", av |-> Append(acc, r.v)]]
         [] OTHER -> Fail
Members(b, p, acc) ==
  LET a == Skip(b, p) IN
  IF At(b, a) # Quote THEN Fail
  ELSE LET k == Chars(b, a + 1, <<>>) IN
       IF k.p = 0 THEN Fail
       ELSE LET c == Skip(b, k.p) IN
            IF At(b, c) # Colon THEN Fail
            ELSE LET r == Val(b, Skip(b, c + 1)) IN
                 IF r.p = 0 THEN Fail
                 ELSE LET q == Skip(b, r.p)
                          e == [k |-> k.v, n |-> r.v] IN
                      CASE At(b, q) = Comma -> Members(b, q + 1, Append(acc, e))
                        [] At(b, q) = RBrace -> [p |-> q + 1, v |-> [t |-> "obj", ov |-> Append(acc, e)]]
                        [] OTHER -> Fail
Val(b, p) ==
  LET c == At(b, p) IN
  CASE c = LBrack -> LET q == Skip(b, p + 1) IN
                     IF At(b, q) = RBrack THEN [p |-> q + 1, v |-> [t |-> "arr", av |-> <<>>]] ELSE Elements(b, q, <<>>)
    [] c = LBrace -> LET q == Skip(b, p + 1) IN
                     IF At(b, q) = RBrace THEN [p |-> q + 1, v |-> [t |-> "obj", ov |-> <<>>]] ELSE Members(b, q, <<>>)
    [] c = Quote -> LET r == Chars(b, p + 1, <<>>) IN IF r.p = 0 THEN Fail ELSE [p |-> r.p, v |-> [t |-> "str", sv |-> r.v]]
    [] Starts(b, p, wNull) -> [p |-> p + 4, v |-> [t |-> "null"]]
    [] Starts(b, p, wTrue) -> [p |-> p + 4, v |-> [t |-> "b", bv |-> TRUE]]
    [] Starts(b, p, wFalse) -> [p |-> p + 5, v |-> [t |-> "b", bv |-> FALSE]]
    [] c = Minus \/ c \in Digit -> LET q == NumEnd(b, p) IN IF q = 0 THEN Fail ELSE [p |-> q, v |-> [t |-> "num", lit |-> SubSeq(b, p, q - 1), o |-> 0]]
    [] OTHER -> Fail

Read(b) == LET r == Val(b, Skip(b, 1)) IN
           IF r.p # 0 /\ Skip(b, r.p) = Len(b) + 1 THEN [ok |-> TRUE, n |-> r.v] ELSE [ok |-> FALSE, n |-> [t |-> "null"]]

----------------------------------------------------------------------------
(* The machine with the document it builds: cur the bytes of the string or     *)
(* number at hand, u and hi the escape at hand and the high surrogate before   *)
(* it, fr the open containers, v the document once complete, o numbers so far. *)
NumMode == {"minus", "zero", "int", "dot", "frac", "exp", "expsign", "expdigits"}
B0 == [s |-> Start, cur |-> <<>>, u |-> 0, hi |-> 0, fr |-> <<>>, v |-> <<>>, o |-> 0]
Put(B, n) ==
  IF B.fr = <<>> THEN [B EXCEPT !.v = <<n>>]
  ELSE [B EXCEPT !.fr[Len(B.fr)].x = Append(@, IF B.fr[Len(B.fr)].t = "arr" THEN n ELSE [k |-> B.fr[Len(B.fr)].k, n |-> n])]
NumNode(B) == [t |-> "num", lit |-> B.cur, o |-> B.o]
Node(f) == IF f.t = "arr" THEN [t |-> "arr", av |-> f.x] ELSE [t |-> "obj", ov |-> f.x]
Char(B, c) == [B EXCEPT !.cur = Append(@, c), !.hi = 0]
Unit(B, u) ==                                            \* a \u escape
  IF Low(u) /\ B.hi # 0 THEN [B EXCEPT !.cur = SubSeq(@, 1, Len(@) - 3) \o Utf8(65536 + (B.hi - 55296) * 1024 + (u - 56320)), !.hi = 0]
  ELSE [B EXCEPT !.cur = @ \o Utf8(u), !.hi = IF High(u) THEN u ELSE 0]
WordNode(w) == IF w = wNull THEN [t |-> "null"] ELSE [t |-> "b", bv |-> w = wTrue]
Str == {"string", "nstring"}
Eat(B, c) ==
  LET s == B.s
      t == Step(s, c)
      B1 == IF s.m \in NumMode /\ t.m \notin NumMode \cup {"dead"} THEN Put(B, NumNode(B)) ELSE B
      B2 == CASE t.m = "dead" -> B
              [] Len(t.st) > Len(s.st) -> [B1 EXCEPT !.fr = Append(@, [t |-> IF Top(t) = "a" THEN "arr" ELSE "obj", x |-> <<>>, k |-> <<>>])]
              [] Len(t.st) < Len(s.st) -> Put([B1 EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)], Node(B1.fr[Len(B1.fr)]))
              [] t.m \in NumMode -> IF s.m \in NumMode THEN [B EXCEPT !.cur = Append(@, c)] ELSE [B EXCEPT !.cur = <<c>>, !.o = @ + 1]
              [] s.m \in Str -> CASE c = Quote -> IF s.m = "string" THEN Put(B, [t |-> "str", sv |-> B.cur]) ELSE [B EXCEPT !.fr[Len(B.fr)].k = B.cur]
                                   [] c = BackSlash -> B
                                   [] OTHER -> Char(B, c)
              [] t.m \in Str -> CASE s.m \in {"escape", "nescape"} -> Char(B, Unesc(c))
                                   [] s.m \in {"hex", "nhex"} -> Unit(B, B.u * 16 + HexVal(c))
                                   [] OTHER -> [B EXCEPT !.cur = <<>>, !.hi = 0]
              [] t.m \in {"hex", "nhex"} -> [B EXCEPT !.u = IF s.m \in {"hex", "nhex"} THEN @ * 16 + HexVal(c) ELSE 0]
              [] s.m = "word" /\ t.m = "after" -> Put(B, WordNode(s.w))
              [] OTHER -> B1
  IN [B2 EXCEPT !.s = t]
Build(b) == LET r == FoldLeft(Eat, B0, b) IN
            IF Accepting(r.s) THEN [ok |-> TRUE, n |-> IF r.s.m \in NumMode THEN NumNode(r) ELSE r.v[1]] ELSE [ok |-> FALSE, n |-> [t |-> "null"]]

----------------------------------------------------------------------------
(* A text of a document: no blanks, only what must be escaped is escaped.     *)
HexOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
EscChar(c) == CASE c = Quote \/ c = BackSlash -> <<BackSlash, c>>
                [] c < 32 -> <<BackSlash, 117, 48, 48, 48 + (c \div 16), HexOf(c % 16)>>
                [] OTHER -> <<c>>
RECURSIVE RenderStr(_, _), Render(_), RenderSeq(_, _), RenderMem(_, _)
RenderStr(s, i) == IF i > Len(s) THEN <<>> ELSE EscChar(s[i]) \o RenderStr(s, i + 1)
Lit(s) == <<Quote>> \o RenderStr(s, 1) \o <<Quote>>
RenderSeq(av, i) == IF i > Len(av) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<Comma>>) \o Render(av[i]) \o RenderSeq(av, i + 1)
RenderMem(ov, i) == IF i > Len(ov) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<Comma>>) \o Lit(ov[i].k) \o <<Colon>> \o Render(ov[i].n) \o RenderMem(ov, i + 1)
Render(n) ==
  CASE n.t = "null" -> wNull
    [] n.t = "b" -> IF n.bv THEN wTrue ELSE wFalse
    [] n.t = "num" -> n.lit
    [] n.t = "str" -> Lit(n.sv)
    [] n.t = "arr" -> <<LBrack>> \o RenderSeq(n.av, 1) \o <<RBrack>>
    [] n.t = "obj" -> <<LBrace>> \o RenderMem(n.ov, 1) \o <<RBrace>>

RECURSIVE Plain(_)
\* the document without ordinals
Plain(n) ==
  CASE n.t = "num" -> [t |-> "num", lit |-> n.lit]
    [] n.t = "arr" -> [t |-> "arr", av |-> [i \in 1 .. Len(n.av) |-> Plain(n.av[i])]]
    [] n.t = "obj" -> [t |-> "obj", ov |-> [i \in 1 .. Len(n.ov) |-> [k |-> n.ov[i].k, n |-> Plain(n.ov[i].n)]]]
    [] OTHER -> n
=============================================================================
