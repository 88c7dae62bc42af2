CONSTANTS H <- HInst  MaxN = 5
SPECIFICATION Spec
INVARIANTS VerifyOk Learned ModifyOk
CHECK_DEADLOCK FALSE
