------------------------------- MODULE Machine -------------------------------
(* The event parser as the machine it is: tokens are consumed one at a time   *)
(* by the handler on top of a stack; a handler that opens a container is      *)
(* replaced by the handler of its contents, a completed value is handed to    *)
(* the handler below.  Related to the denotation Par in every final state and *)
(* bounded in its stack in every state.  Documents come from module Model.    *)
EXTENDS Model

\* ---- tokens ----------------------------------------------------------------------------------------------------------
TokR(k, n, a, z) == [k |-> k, n |-> n, a |-> a, z |-> z]
RECURSIVE Tokens(_)
Tokens(j) ==
  CASE j.t = "arr" -> <<TokR("[", 0, j.a, j.z)>> \o Flat([i \in 1 .. Len(j.av) |-> Tokens(j.av[i])]) \o <<TokR("]", 0, j.c, j.cz)>>
    [] j.t = "obj" -> <<TokR("{", 0, j.a, j.z)>> \o Flat([i \in 1 .. Len(j.ov) |-> <<TokR("key", j.ov[i].k, j.ov[i].a, j.ov[i].z)>> \o Tokens(j.ov[i].n)]) \o <<TokR("}", 0, j.c, j.cz)>>
    [] OTHER -> <<TokR("leaf", j, j.a, j.z)>>

\* ---- handlers --------------------------------------------------------------------------------------------------------
\* f: "val" expects a value of type t, "seq"/"map"/"obj" are inside a container of type t; wr: pointers around the value;
\* vs: contents so far; cur: key or member being read
Handler(f, t, wr, vs, cur) == [f |-> f, t |-> t, wr |-> wr, vs |-> vs, cur |-> cur]
RECURSIVE Wraps(_)
Wraps(t) == IF TY(t).k \in {"uptr", "sptr"} THEN <<TY(t).k>> \o Wraps(TY(t).e[1]) ELSE <<>>
Expect(t) == Handler("val", Peel(t), Wraps(t), <<>>, 0)
RECURSIVE Wrap(_, _, _)
Wrap(wr, v, a) == IF wr = <<>> THEN v ELSE <<IF wr[1] = "uptr" THEN 1 ELSE a + 1, Wrap(Tail(wr), v, a)>>

Run(stk, st_, v, at) == [stk |-> stk, s |-> st_, v |-> v, at |-> at]
Reject(tok) == Run(<<>>, "no", 0, <<tok.a, tok.z>>)
Top(stk) == stk[Len(stk)]
Pop(stk) == SubSeq(stk, 1, Len(stk) - 1)
\* hand a completed value to the handler below
Deliver(stk, v, a) ==
  LET h == Top(stk)  w == Wrap(h.wr, v, a)  below == Pop(stk) IN
  IF below = <<>> THEN Run(<<>>, "yes", w, <<0, 0>>)
  ELSE LET p == Top(below)
           q == CASE p.f = "seq" -> [p EXCEPT !.vs = Append(@, w)]
                  [] p.f = "map" -> [p EXCEPT !.vs = Append(@, <<p.cur, w>>)]
                  [] p.f = "obj" -> [p EXCEPT !.vs = [@ EXCEPT ![p.cur] = IF TY(p.t).m[p.cur].o = "opt" THEN <<w>> ELSE w]]
       IN Run(Pop(below) \o <<q>>, "go", 0, <<0, 0>>)
\* the position of the opening token identifies an object, it is kept in the handler of the contents
Open(stk, f, vs, tok) == LET h == Top(stk) IN Run(Pop(stk) \o <<[h EXCEPT !.f = f, !.vs = vs, !.cur = tok.a]>>, "go", 0, <<0, 0>>)
OnValue(stk, tok) ==
  LET h == Top(stk)  T == TY(h.t) IN
  IF IsScalar(T)
  THEN IF tok.k # "leaf" \/ ~ScalarOk(T, tok.n) THEN Reject(tok)
       ELSE IF T.k \in {"float", "double"} /\ tok.n.i /\ (IF T.k = "float" THEN tok.n.xf ELSE tok.n.xd) = "no" THEN Reject(tok)
       ELSE Deliver(stk, ScalarVal(T, tok.n), tok.a)
  ELSE IF T.k \in {"vec", "set", "arr", "tup"} THEN (IF tok.k = "[" THEN Open(stk, "seq", <<>>, [tok EXCEPT !.a = tok.a]) ELSE Reject(tok))
  ELSE IF T.k \in {"map", "umap"} THEN (IF tok.k = "{" THEN Open(stk, "map", <<>>, tok) ELSE Reject(tok))
  ELSE IF tok.k = "{" THEN Open(stk, "obj", InitObj(T), tok) ELSE Reject(tok)
\* opening positions are kept apart from the handlers: a stack of their own, pushed and popped with the brackets
ArityOf(T) == CASE T.k = "arr" -> T.n [] T.k = "tup" -> Len(T.e) [] OTHER -> -1
ElemOf(T, i) == IF T.k = "tup" THEN T.e[i] ELSE T.e[1]
OnSeq(stk, tok, open) ==
  LET h == Top(stk)  T == TY(h.t)  n == ArityOf(T) IN
  IF tok.k = "]" THEN (IF n >= 0 /\ Len(h.vs) < n THEN Reject(tok) ELSE Deliver(stk, h.vs, open))
  ELSE IF n >= 0 /\ Len(h.vs) = n THEN Reject(tok)
  ELSE OnValue(stk \o <<Expect(ElemOf(T, Len(h.vs) + 1))>>, tok)
OnMap(stk, tok, open) ==
  LET h == Top(stk) IN
  IF tok.k = "}" THEN Deliver(stk, h.vs, open)
  ELSE Run(Pop(stk) \o <<[h EXCEPT !.cur = tok.n]>> \o <<Expect(TY(h.t).e[1])>>, "go", 0, <<0, 0>>)
OnObj(stk, tok, open) ==
  LET h == Top(stk) IN
  IF tok.k = "}" THEN Deliver(stk, h.vs, open)
  ELSE LET k == MemberNamed(TY(h.t).m, tok.n, 1)
       IN IF k = 0 THEN Reject(tok) ELSE Run(Pop(stk) \o <<[h EXCEPT !.cur = k]>> \o <<Expect(TY(h.t).m[k].t)>>, "go", 0, <<0, 0>>)
Step(stk, tok, open) ==
  LET f == Top(stk).f IN
  CASE f = "val" -> OnValue(stk, tok) [] f = "seq" -> OnSeq(stk, tok, open) [] f = "map" -> OnMap(stk, tok, open) [] f = "obj" -> OnObj(stk, tok, open)

----------------------------------------------------------------------------
VARIABLE mc      \* [on, i: tokens consumed, r: run, ops: positions of the brackets that are open]
mvars == <<st, mc>>
Idle == [on |-> FALSE, i |-> 0, r |-> Run(<<>>, "go", 0, <<0, 0>>), ops |-> <<>>]
MInit == Init /\ mc = Idle
Start == ~mc.on /\ TY(st.t).ps /\ mc' = [on |-> TRUE, i |-> 0, r |-> Run(<<Expect(st.t)>>, "go", 0, <<0, 0>>), ops |-> <<>>] /\ UNCHANGED st
Toks == Tokens(st.j)
Consume ==
  /\ mc.on /\ mc.r.s = "go" /\ mc.i < Len(Toks)
  /\ LET tok == Toks[mc.i + 1]
         ops == CASE tok.k \in {"[", "{"} -> Append(mc.ops, tok.a) [] tok.k \in {"]", "}"} -> Pop(mc.ops) [] OTHER -> mc.ops
         open == IF mc.ops = <<>> THEN 0 ELSE mc.ops[Len(mc.ops)]
     IN mc' = [on |-> TRUE, i |-> mc.i + 1, r |-> Step(mc.r.stk, tok, open), ops |-> ops]
  /\ UNCHANGED st
MNext == (~mc.on /\ Alter /\ UNCHANGED mc) \/ Start \/ Consume
MSpec == MInit /\ [][MNext]_mvars

\* ---- laws ------------------------------------------------------------------------------------------------------------
P == Par(st.t, st.j)
LawMachineValue == mc.r.s = "yes" => P.ok /\ P.v = mc.r.v /\ mc.i = Len(Toks)
LawMachineReject == mc.r.s = "no" => ~P.ok /\ P.at = mc.r.at
LawMachineEnds == mc.on /\ mc.i = Len(Toks) => mc.r.s # "go"
\* one handler per open container and one for the value expected next
LawStackBound == mc.on => Len(mc.r.stk) <= Len(mc.ops) + 1
LawStackEmpty == mc.r.s # "go" => mc.r.stk = <<>>
=============================================================================
