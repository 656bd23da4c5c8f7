SPECIFICATION SpecOpb
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
