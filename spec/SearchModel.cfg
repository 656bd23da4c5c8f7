SPECIFICATION Spec
CONSTANTS
  D1 = {0, 1}
  D2 = {0, 1}
  Scales = {1}
  MaxPass = 2
  Ops = {"eq", "ne"}
CONSTRAINT Bound
INVARIANT Promises
INVARIANT CountersAgree
CHECK_DEADLOCK FALSE
