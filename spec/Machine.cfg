INIT MInit
NEXT MNext
INVARIANT LawMachineValue LawMachineReject LawMachineEnds LawStackBound LawStackEmpty
CHECK_DEADLOCK FALSE
