SPECIFICATION Spec
CONSTANTS
 MaxSteps = 2
INVARIANTS Resolved Emit
CHECK_DEADLOCK FALSE
