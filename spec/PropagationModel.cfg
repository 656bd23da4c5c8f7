SPECIFICATION Spec
CONSTANTS
  Saves = 1
  Arms = 1
  Few = TRUE
INVARIANT NothingMissed
INVARIANT NothingCertain
INVARIANT Sane
PROPERTY Restored
CHECK_DEADLOCK FALSE
