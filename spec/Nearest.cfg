SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
PROPERTIES OnlyNearest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
