SPECIFICATION Spec
CONSTANT MaxLines = 2
INVARIANTS SameMeaning CaseBlind BlankBlind Prefix
CHECK_DEADLOCK FALSE
