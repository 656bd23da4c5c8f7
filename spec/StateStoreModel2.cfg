SPECIFICATION Spec
INVARIANTS NeverEmpty Shrinking Decided Nested ReportsAgree
PROPERTIES Restores
CHECK_DEADLOCK FALSE
CONSTANT Saves = 2
