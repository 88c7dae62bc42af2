CONSTANTS H <- HFree  MaxN = 3  MaxAdds = 2  MaxUndo = 1  File = TRUE
SPECIFICATION Spec
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
