SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
PROPERTIES OnlyNearest

CHECK_DEADLOCK FALSE
