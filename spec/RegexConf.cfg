SPECIFICATION Spec
INVARIANTS
  GrammarAgrees
  AutomatonWellFormed
  LanguageAgrees
  ReferenceAgrees
CHECK_DEADLOCK FALSE
