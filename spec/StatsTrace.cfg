SPECIFICATION Spec
INVARIANT OnceEach
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
