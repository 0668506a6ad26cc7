-------------------------------- MODULE Calls --------------------------------
(* Calls of the library as they run: each works through its argument element  *)
(* by element with a table of references (where a shared object was written,  *)
(* what a path refers to), may fail half-way, and returns.  Several threads   *)
(* make calls; objects may change between calls.  The law is that a call      *)
(* returns what it returns when it is the only one ever made.                 *)
(*   Scope  where the table lives:                                            *)
(*     "call"    made by each call, gone with it (the library)                *)
(*     "thread"  kept for later calls                                         *)
(*     "lazy"    kept, cleared by a call that succeeds                        *)
(*     "static"  one for the program, cleared by each call as it starts       *)
(*     "memo"    output of an object is remembered by address                 *)
(*   Guard  the tables of a class are filled under a once-guard               *)
(* Every scope but "call", and no guard, are negative controls.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, NCalls, NMut, Scope, Guard, Reads

Addrs == {1, 2}
Bad == 0
Vals == {Bad, 1, 2}
Items == {[k |-> "f", x |-> Bad], [k |-> "f", x |-> 1], [k |-> "r", x |-> 1], [k |-> "r", x |-> 2]}
Seqs(S) == {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Ops == {[op |-> "write", xs |-> s] : s \in Seqs(Addrs)} \cup (IF Reads THEN {[op |-> "read", xs |-> s] : s \in Seqs(Items)} ELSE {})

\* ---- what a call returns when it is alone ----------------------------------------------------------------------------
No == [ok |-> FALSE, out |-> <<>>]
FirstAt(xs, i) == CHOOSE k \in 1 .. i : xs[k] = xs[i] /\ \A q \in 1 .. k - 1 : xs[q] # xs[i]
WriteAlone(xs, heap) ==
  IF \E i \in 1 .. Len(xs) : heap[xs[i]] = Bad THEN No
  ELSE [ok |-> TRUE, out |-> [i \in 1 .. Len(xs) |-> LET k == FirstAt(xs, i) IN IF k < i THEN <<"ref", k>> ELSE <<"full", heap[xs[i]]>>]]
\* a reference is to an element before it that is written in full
Refers(xs, i) == IF xs[i].k = "f" THEN xs[i].x # Bad ELSE xs[i].x < i /\ xs[xs[i].x].k = "f"
ReadAlone(xs) ==
  IF \E i \in 1 .. Len(xs) : ~Refers(xs, i) THEN No
  ELSE [ok |-> TRUE, out |-> [i \in 1 .. Len(xs) |-> IF xs[i].k = "f" THEN <<"new", i, xs[i].x>> ELSE <<"new", xs[i].x, xs[xs[i].x].x>>]]
Alone(o, heap) == IF o.op = "write" THEN WriteAlone(o.xs, heap) ELSE ReadAlone(o.xs)

\* ---- the calls -------------------------------------------------------------------------------------------------------
VARIABLES heap, th, tab, memo, ready, hist
vars == <<heap, th, tab, memo, ready, hist>>
Idle(n) == [pc |-> "idle", o |-> 0, i |-> 0, out |-> <<>>, left |-> n, exp |-> 0, got |-> 0, call |-> 0]
Own(t) == IF Scope = "static" THEN 0 ELSE t
Init ==
  /\ heap = [a \in Addrs |-> a] /\ th = [t \in Threads |-> Idle(NCalls)] /\ tab = [x \in Threads \cup {0} |-> {}] /\ memo = {}
  /\ ready = [flag |-> FALSE, filled |-> FALSE, by |-> 0] /\ hist = <<>>
Busy(t) == th[t].pc # "idle"
\* a call begins: it takes a new table, unless the table outlives calls
Begin(t) ==
  /\ th[t].pc = "idle" /\ th[t].left > 0
  /\ \E o \in Ops :
       /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "prep", !.o = o, !.i = 1, !.out = <<>>, !.exp = Alone(o, heap), !.left = @ - 1, !.call = @ + 1]]
       /\ hist' = Append(hist, [t |-> t, o |-> o])
  /\ tab' = [tab EXCEPT ![Own(t)] = IF Scope \in {"call", "static", "memo"} THEN {} ELSE @]
  /\ UNCHANGED <<heap, memo, ready>>
\* first use of a class: its tables are filled
Prep(t) ==
  /\ th[t].pc = "prep"
  /\ IF ready.flag /\ (~Guard \/ ready.filled) THEN th' = [th EXCEPT ![t].pc = "use"] /\ UNCHANGED ready
     ELSE /\ ~ready.flag          \* under the guard a thread waits while another one fills
          /\ ready' = [ready EXCEPT !.flag = TRUE, !.by = t] /\ th' = [th EXCEPT ![t].pc = "fill"]
  /\ UNCHANGED <<heap, tab, memo, hist>>
Fill(t) == th[t].pc = "fill" /\ ready' = [ready EXCEPT !.filled = TRUE] /\ th' = [th EXCEPT ![t].pc = "use"] /\ UNCHANGED <<heap, tab, memo, hist>>
Return(t, r, tb) ==
  /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "done", !.got = r]]
  /\ tab' = [tab EXCEPT ![Own(t)] = IF Scope = "lazy" /\ r.ok THEN {} ELSE tb]
Use(t) ==
  /\ th[t].pc = "use"
  /\ LET s == th[t]  xs == s.o.xs  x == xs[s.i]  T == tab[Own(t)]
         go(e, tb) == IF s.i = Len(xs) THEN Return(t, [ok |-> TRUE, out |-> Append(s.out, e)], tb)
                      ELSE th' = [th EXCEPT ![t] = [@ EXCEPT !.i = @ + 1, !.out = Append(@, e)]] /\ tab' = [tab EXCEPT ![Own(t)] = tb]
     IN IF ~ready.filled THEN Return(t, No, T) /\ UNCHANGED memo       \* the tables of the class are not there
        ELSE IF s.o.op = "write"
        THEN LET f == {e \in T : e[1] = "w" /\ e[2] = x}
                 m == {e \in memo : e[1] = x}
             IN IF f # {} THEN go(<<"ref", (CHOOSE e \in f : TRUE)[3]>>, T) /\ UNCHANGED memo
                ELSE IF Scope = "memo" /\ m # {} THEN go(<<"full", (CHOOSE e \in m : TRUE)[2]>>, T \cup {<<"w", x, s.i>>}) /\ UNCHANGED memo
                ELSE IF heap[x] = Bad THEN Return(t, No, T) /\ UNCHANGED memo
                ELSE go(<<"full", heap[x]>>, T \cup {<<"w", x, s.i>>}) /\ memo' = IF Scope = "memo" THEN memo \cup {<<x, heap[x]>>} ELSE memo
        ELSE /\ UNCHANGED memo
             /\ IF x.k = "f" THEN (IF x.x = Bad THEN Return(t, No, T) ELSE go(<<"new", s.i, x.x>>, {e \in T : ~(e[1] = "r" /\ e[2] = s.i)} \cup {<<"r", s.i, <<"new", s.i, x.x>>>>}))
                ELSE LET f == {e \in T : e[1] = "r" /\ e[2] = x.x} IN IF f = {} THEN Return(t, No, T) ELSE go((CHOOSE e \in f : TRUE)[3], T)
  /\ UNCHANGED <<heap, ready, hist>>
End(t) == th[t].pc = "done" /\ th' = [th EXCEPT ![t] = [Idle(@.left) EXCEPT !.call = th[t].call]] /\ UNCHANGED <<heap, tab, memo, ready, hist>>
\* an object changes between calls
Muts == Cardinality({i \in 1 .. Len(hist) : hist[i].t = 0})
Change ==
  /\ Muts < NMut /\ (\A t \in Threads : ~Busy(t)) /\ (\E t \in Threads : th[t].left > 0)
  /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].t # 0
  /\ \E a \in Addrs : \E v \in Vals \ {heap[a]} : heap' = [heap EXCEPT ![a] = v] /\ hist' = Append(hist, [t |-> 0, o |-> [op |-> "set", xs |-> <<a, v>>]])
  /\ UNCHANGED <<th, tab, memo, ready>>
Next == Change \/ \E t \in Threads : Begin(t) \/ Prep(t) \/ Fill(t) \/ Use(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E t \in Threads : Prep(t) \/ Fill(t) \/ Use(t) \/ End(t))

\* ---- laws ------------------------------------------------------------------------------------------------------------
LawAlone == \A t \in Threads : th[t].pc = "done" => th[t].got = th[t].exp
\* no thread touches what another one writes
LawNoRace == \A a, b \in Threads : a # b => /\ ~(th[a].pc = "fill" /\ th[b].pc \in {"fill", "use"})
                                            /\ ~(Scope \in {"static", "memo"} /\ th[a].pc = "use" /\ th[b].pc = "use")
\* every call returns
LawReturns == \A t \in Threads : Busy(t) ~> ~Busy(t)
Finished == \A t \in Threads : th[t].pc = "idle" /\ th[t].left = 0
Out == Finished => PrintT("HIST " \o ToJson(hist))
=============================================================================
