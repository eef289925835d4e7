SPECIFICATION Spec
CONSTANTS
 InPlace = FALSE
INVARIANTS Equal Untouched Emit
CHECK_DEADLOCK FALSE
