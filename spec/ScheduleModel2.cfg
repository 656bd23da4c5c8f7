SPECIFICATION Spec
CONSTANTS
    N = 3
    MaxDuration = 1
    Capacity = 2
INVARIANTS SerialFeasible BoundsHold BoundsTight
CHECK_DEADLOCK FALSE
