CONSTANTS H <- HFree  MaxN = 4  MaxAdds = 2  MaxOmit = 2
SPECIFICATION Spec
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
