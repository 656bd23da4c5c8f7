SPECIFICATION Spec
INVARIANT PotentialValid
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
