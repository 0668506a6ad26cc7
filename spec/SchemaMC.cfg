SPECIFICATION Spec
INVARIANTS LawDescribes LawConforms LawBetween LawReader LawReader2 Out
CHECK_DEADLOCK FALSE
