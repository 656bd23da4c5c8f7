SPECIFICATION Spec
CONSTANTS
    N = 3
    MaxDuration = 2
    Capacity = 1
INVARIANTS SerialFeasible BoundsTight
CHECK_DEADLOCK FALSE
