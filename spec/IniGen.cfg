SPECIFICATION GenSpec
CONSTANT MaxLines = 2
CHECK_DEADLOCK FALSE
