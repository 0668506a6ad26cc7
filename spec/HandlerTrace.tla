---------------------------- MODULE HandlerTrace ----------------------------
(* Conformance of histories of the real handler stack.  An event is one       *)
(* history: [cap, mem, inside, dead, steps, fin] with steps                   *)
(*   [op: 0 pop, c push, 100 + c push with a failing constructor,             *)
(*    res: "ok" | "exh" | "thrown" | "empty" | other, id, addr, size, align,  *)
(*    gone: objects destroyed, top: object on top (0: none), intact: all      *)
(*    objects hold what was stored in them]                                   *)
(* and fin the objects destroyed with the stack.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Events == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Events)
Stretch == LET k == N \div 64 IN IF k < 1 THEN 1 ELSE k
VARIABLE i
Init == i \in {k \in 1 .. N : k % Stretch = 1 \/ Stretch = 1}
Next == i < N /\ (i + 1) % Stretch # 1 /\ Stretch # 1 /\ i' = i + 1
Spec == Init /\ [][Next]_i

TopId(live) == IF live = <<>> THEN 0 ELSE live[Len(live)].id
MaxEnd(live) == LET S == {live[k].addr + live[k].size : k \in 1 .. Len(live)} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Slack == 48
RECURSIVE Total(_, _)
Total(live, k) == IF k = 0 THEN 0 ELSE live[k].size + Slack + Total(live, k - 1)
\* objects kept elsewhere (not inside the stack object): their addresses say nothing about what is left
MustFit(e, live, s) == Len(live) < e.cap /\ (IF e.inside THEN MaxEnd(live) ELSE Total(live, Len(live))) + s.size + Slack <= e.mem
Same(s, live) == s.gone = <<>> /\ s.top = TopId(live) /\ s.intact
StepOk(e, live, s) ==
  IF s.op = 0
  THEN IF live = <<>> THEN s.res = "empty" /\ Same(s, live)
       ELSE s.res = "ok" /\ s.gone = <<TopId(live)>> /\ s.top = TopId(SubSeq(live, 1, Len(live) - 1)) /\ s.intact
  ELSE CASE s.res = "ok" ->
              /\ s.op < 100 /\ (e.inside => Len(live) < e.cap)
              /\ s.addr % s.align = 0
              /\ e.inside => s.addr >= 0 /\ s.addr + s.size <= e.mem
              /\ e.inside => \A k \in 1 .. Len(live) : s.addr + s.size <= live[k].addr \/ live[k].addr + live[k].size <= s.addr
              /\ s.gone = <<>> /\ s.top = s.id /\ s.intact
         [] s.res = "exh" -> ~MustFit(e, live, s) /\ Same(s, live)
         [] s.res = "thrown" -> s.op > 100 /\ Same(s, live)
         [] OTHER -> FALSE
After(live, s) ==
  IF s.op = 0 THEN (IF live = <<>> THEN live ELSE SubSeq(live, 1, Len(live) - 1))
  ELSE IF s.res = "ok" THEN Append(live, [id |-> s.id, addr |-> s.addr, size |-> s.size]) ELSE live
RECURSIVE Go(_, _, _)
Go(e, k, live) ==
  IF k > Len(e.steps) THEN Len(e.fin) = Len(live) /\ {e.fin[n] : n \in 1 .. Len(live)} = {live[n].id : n \in 1 .. Len(live)}
  ELSE StepOk(e, live, e.steps[k]) /\ Go(e, k + 1, After(live, e.steps[k]))
Bad(e) == IF e.dead THEN {"dead"} ELSE IF Go(e, 1, <<>>) THEN {} ELSE {"stack"}
Allowed == LET b == Bad(Events[i]) IN b = {} \/ PrintT("VIOL " \o ToString(i) \o " " \o ToString(b))
=============================================================================
