SPECIFICATION Spec
CONSTANTS
 InPlace = TRUE
INVARIANTS Equal Untouched
CHECK_DEADLOCK FALSE
