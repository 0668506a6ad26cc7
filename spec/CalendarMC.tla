----------------------------- MODULE CalendarMC -----------------------------
(* A calendar that ticks one day at a time and a clock that ticks one second  *)
(* at a time, related in every state to the closed forms of module Calendar.  *)
(*   CAL: [years, secs, off]: the years walked, the stretches of seconds of   *)
(*   the day (start, end) and some days around which whole instants are taken *)
EXTENDS Calendar, TLC, IOUtils, Json, FiniteSets

Cal == JsonDeserialize(IOEnv.CAL)
Years == {Cal.years[i] : i \in 1 .. Len(Cal.years)}

VARIABLE st     \* [m: "day", y, mo, d, n] or [m: "sec", h, mi, s, n]
vars == <<st>>
\* the number of days before a year, counted year by year in periods of 400
RECURSIVE YearsBefore(_)
YearsBefore(k) == IF k = 0 THEN 0 ELSE YearsBefore(k - 1) + (IF IsLeap(k - 1) THEN 366 ELSE 365)
D400 == YearsBefore(400)
Epoch == 4 * D400 + YearsBefore(370)
StartOf(y) == (y \div 400) * D400 + YearsBefore(y % 400) - Epoch
Init == \/ \E y \in Years : st = [m |-> "day", y |-> y, mo |-> 1, d |-> 1, n |-> StartOf(y)]
        \/ \E i \in 1 .. Len(Cal.secs) : LET k == Cal.secs[i][1] IN st = [m |-> "sec", y |-> Cal.secs[i][2], h |-> k \div 3600, mi |-> (k \div 60) % 60, s |-> k % 60, n |-> k]
Tomorrow(x) ==
  IF x.d < DaysIn(x.y, x.mo) THEN [x EXCEPT !.d = @ + 1, !.n = @ + 1]
  ELSE IF x.mo < 12 THEN [x EXCEPT !.d = 1, !.mo = @ + 1, !.n = @ + 1]
  ELSE [x EXCEPT !.d = 1, !.mo = 1, !.y = @ + 1, !.n = @ + 1]
Later(x) ==
  IF x.s < 59 THEN [x EXCEPT !.s = @ + 1, !.n = @ + 1]
  ELSE IF x.mi < 59 THEN [x EXCEPT !.s = 0, !.mi = @ + 1, !.n = @ + 1]
  ELSE [x EXCEPT !.s = 0, !.mi = 0, !.h = @ + 1, !.n = @ + 1]
Next == \/ st.m = "day" /\ ~(st.mo = 12 /\ st.d = 31) /\ st' = Tomorrow(st)
        \/ st.m = "sec" /\ st.n < st.y /\ st' = Later(st)
Spec == Init /\ [][Next]_vars

Civil == [y |-> st.y, m |-> st.mo, d |-> st.d]
LawDays == st.m = "day" => DaysOf(st.y, st.mo, st.d) = st.n
LawCivil == st.m = "day" => CivilOf(st.n) = Civil
LawDateText == st.m = "day" => LET s == DateText(Civil) IN DateAdmitted(s) /\ DateOf(s) = Civil
LawNewYear == st.m = "day" /\ st.mo = 12 /\ st.d = 31 => Tomorrow(st).n = StartOf(st.y + 1)
\* days that do not exist are not admitted
LawNoDay == st.m = "day" /\ st.d = DaysIn(st.y, st.mo) => \A d \in st.d + 1 .. 32 : ~DateAdmitted(DateText([Civil EXCEPT !.d = d]))
LawInstant == st.m = "day" => \A s \in {0, 1, 43200, 86399} :
                LET t == TimeText(st.n, s) IN TimeForm(t) /\ (TimeAdmitted(t) <=> InClock(st.n, s)) /\ (TimeAdmitted(t) => TimeOf(t) = [d |-> st.n, s |-> s, n |-> 0])
LawClock == st.m = "sec" => LET t == TimeText(0, st.n) IN TimeAdmitted(t) /\ SecsOf(t) = st.n /\ N2(t, 12) = st.h /\ N2(t, 15) = st.mi /\ N2(t, 18) = st.s
LawBounds == st.m = "sec" => (InClock(ClockLo.d, st.n) <=> st.n > ClockLo.s) /\ (InClock(ClockHi.d, st.n) <=> st.n <= ClockHi.s)
=============================================================================
