INIT Init
NEXT Next
INVARIANT LawOutput LawRoundTripD LawRoundTripP LawAgree LawPlace LawStable LawDistinct Out
CHECK_DEADLOCK FALSE
