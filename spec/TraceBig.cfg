CONSTANT H <- ParentHash
SPECIFICATION TraceSpec
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
