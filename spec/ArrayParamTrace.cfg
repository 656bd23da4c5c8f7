SPECIFICATION Spec
INVARIANT Exact
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
