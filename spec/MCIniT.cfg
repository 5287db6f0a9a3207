SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS SameMeaning CaseBlind BlankBlind Prefix
CHECK_DEADLOCK FALSE
