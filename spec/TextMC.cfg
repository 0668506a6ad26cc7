SPECIFICATION Spec
INVARIANTS LawAgree LawBuild LawRun LawRender LawBlank LawNest LawPrefix Out
CHECK_DEADLOCK FALSE
