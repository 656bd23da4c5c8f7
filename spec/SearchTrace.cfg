SPECIFICATION Spec
INVARIANT NoRepeats
INVARIANT OnlySolutions
INVARIANT Improving
INVARIANT CompleteMeansAll
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
