------------------------------ MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar and the fixed-form date and time texts.      *)
(* Days are counted from 1970-01-01.                                         *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28
IsDate(y, m, d) == m \in 1 .. 12 /\ d >= 1 /\ d <= DaysIn(y, m)

\* years are counted from March so that the leap day is the last day of a year
DaysOf(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
  IN 365 * y + y \div 4 - y \div 100 + y \div 400 + doy - 719468

\* inverse, by era of 146097 days
CivilOf(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d]

D2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
DateText(c) == D4(c.y) \o <<45>> \o D2(c.m) \o <<45>> \o D2(c.d)
\* text of an instant given as days and seconds of the day
TimeText(days, secs) ==
  DateText(CivilOf(days)) \o <<84>> \o D2(secs \div 3600) \o <<58>> \o D2((secs \div 60) % 60) \o <<58>> \o D2(secs % 60) \o <<90>>

IsDig(c) == c >= 48 /\ c <= 57
N2(s, i) == (s[i] - 48) * 10 + s[i + 1] - 48
N4(s, i) == N2(s, i) * 100 + N2(s, i + 2)
DateForm(s) ==
  /\ Len(s) >= 10
  /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDig(s[i])
  /\ s[5] = 45 /\ s[8] = 45
DateAdmitted(s) == Len(s) = 10 /\ DateForm(s) /\ IsDate(N4(s, 1), N2(s, 6), N2(s, 9))
DateOf(s) == [y |-> N4(s, 1), m |-> N2(s, 6), d |-> N2(s, 9)]

\* the clock: 64-bit nanoseconds around 1970
ClockLo == [d |-> -106752, s |-> 763, n |-> 145224192]       \* 1677-09-21T00:12:43.145224192Z
ClockHi == [d |-> 106751, s |-> 85636, n |-> 854775807]      \* 2262-04-11T23:47:16.854775807Z
InClock(d, s) ==
  /\ d > ClockLo.d \/ (d = ClockLo.d /\ s > ClockLo.s)      \* whole seconds only
  /\ d < ClockHi.d \/ (d = ClockHi.d /\ s <= ClockHi.s)

TimeForm(s) ==
  /\ Len(s) = 20 /\ DateForm(s)
  /\ s[11] \in {84, 32} /\ s[14] = 58 /\ s[17] = 58 /\ s[20] = 90
  /\ \A i \in {12, 13, 15, 16, 18, 19} : IsDig(s[i])
SecsOf(s) == N2(s, 12) * 3600 + N2(s, 15) * 60 + N2(s, 18)
TimeAdmitted(s) ==
  /\ TimeForm(s)
  /\ IsDate(N4(s, 1), N2(s, 6), N2(s, 9))
  /\ N2(s, 12) <= 23 /\ N2(s, 15) <= 59 /\ N2(s, 18) <= 59
  /\ InClock(DaysOf(N4(s, 1), N2(s, 6), N2(s, 9)), SecsOf(s))
TimeOf(s) == [d |-> DaysOf(N4(s, 1), N2(s, 6), N2(s, 9)), s |-> SecsOf(s), n |-> 0]
=============================================================================
