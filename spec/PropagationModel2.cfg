SPECIFICATION Spec
CONSTANTS
  Saves = 2
  Arms = 1
  Few = FALSE
INVARIANT NothingMissed
INVARIANT NothingCertain
INVARIANT Sane
PROPERTY Restored
CHECK_DEADLOCK FALSE
