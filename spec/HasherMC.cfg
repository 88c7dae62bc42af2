CONSTANT B = 8
CONSTANT L = 2
CONSTANT MaxLen = 20
CONSTANT MaxPiece = 20
SPECIFICATION Spec
INVARIANT NothingLost
INVARIANT Standard
CHECK_DEADLOCK FALSE
