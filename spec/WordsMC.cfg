CONSTANTS H <- HFree  MaxN = 18  MaxT = 4
SPECIFICATION Spec
INVARIANTS WordsOk RowsOk RootsOk NodesOk ProofsOk
CHECK_DEADLOCK FALSE
