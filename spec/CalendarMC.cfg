SPECIFICATION Spec
INVARIANTS LawDays LawCivil LawDateText LawNewYear LawNoDay LawInstant LawClock LawBounds
CHECK_DEADLOCK FALSE
