CONSTANTS H <- HFree  MaxN = 6  MaxAdds = 2  MaxAttack = 3
SPECIFICATION Spec
INVARIANTS Geometry Conserved Complete Sound Agreed NextOk Needed Proves
CHECK_DEADLOCK FALSE
