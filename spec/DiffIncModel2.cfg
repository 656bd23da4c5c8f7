SPECIFICATION Spec
CONSTANTS
  Top = 2
  MaxDepth = 1
  Graph = 2
INVARIANTS Complete GateBelow GateClosed
CHECK_DEADLOCK FALSE
