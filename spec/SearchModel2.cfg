SPECIFICATION Spec
CONSTANTS
  D1 = {0, 1}
  D2 = {0, 1, 2}
  Scales = {0}
  MaxPass = 2
  Ops = {"eq"}
CONSTRAINT Bound
INVARIANT Promises
INVARIANT CountersAgree
CHECK_DEADLOCK FALSE
