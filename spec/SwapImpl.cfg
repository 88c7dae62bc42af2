CONSTANTS H <- HFree  MaxN = 8
SPECIFICATION Spec
INVARIANTS Removed Undone Sizes
CHECK_DEADLOCK FALSE
