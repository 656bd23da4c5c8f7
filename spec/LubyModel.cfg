SPECIFICATION Spec
CONSTANT MaxI = 2000
INVARIANT Agrees
CHECK_DEADLOCK FALSE
