SPECIFICATION Spec
INVARIANTS Report Ended
CHECK_DEADLOCK FALSE
