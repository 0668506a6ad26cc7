------------------------------- MODULE TextMC -------------------------------
(* All texts over small alphabets: every prefix that can still become a text,  *)
(* up to a length, and each way of spoiling it by one more byte.               *)
EXTENDS Text, TLC, IOUtils, Json
Sel == JsonDeserialize(IOEnv.SEL)          \* sequence of [alphabet, max, pre, open]
VARIABLES a, b, s
Init == /\ a \in 1 .. Len(Sel)
        /\ b = Sel[a].pre
        /\ s = RunM(Sel[a].pre, 1, Start)
Next == /\ s.m # "dead"
        /\ Len(b) < Sel[a].max
        /\ \E i \in 1 .. Len(Sel[a].alphabet) :
             LET c == Sel[a].alphabet[i] IN b' = Append(b, c) /\ s' = Step(s, c)
        /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, s>>
(* the machine and the function describe the same language *)
LawAgree == Accepting(s) = Read(b).ok
(* and give the same document *)
LawBuild == LET x == Read(b) y == Build(b) IN x.ok = y.ok /\ Plain(x.n) = Plain(y.n)
LawRun == s = RunM(b, 1, Start)
(* a rendering of what was read is a text of the same document, and stays what it is *)
LawRender == LET r == Read(b) IN r.ok => LET x == Render(Plain(r.n)) y == Read(x) IN y.ok /\ Plain(y.n) = Plain(r.n) /\ Render(Plain(y.n)) = x
(* blanks around and a further value: the first is nothing, the second never a text *)
LawBlank == Read(b).ok => Read(<<32>> \o b \o <<10>>).ok /\ ~Read(b \o <<32>> \o <<48>>).ok /\ ~Read(b \o <<Comma>>).ok
LawNest == Read(b).ok => LET r == Read(<<LBrack>> \o b \o <<Comma>> \o b \o <<RBrack>>) IN r.ok /\ Len(r.n.av) = 2 /\ Plain(r.n.av[1]) = Plain(Read(b).n) /\ Plain(r.n.av[2]) = Plain(Read(b).n)
(* what is dead stays dead *)
LawPrefix == (s.m = "dead") => ~Read(b).ok /\ \A c \in {32, 34, 48, 93, 125} : ~Read(Append(b, c)).ok
Out == PrintT("TXT " \o ToJson(b))
=============================================================================
