SPECIFICATION Spec
INVARIANT Canonical
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
