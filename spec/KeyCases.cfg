SPECIFICATION Spec
CONSTANT MaxLen = 52
INVARIANT Emit
CHECK_DEADLOCK FALSE
