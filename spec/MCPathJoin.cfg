SPECIFICATION Spec
CONSTANTS
 MaxComps = 3
 Dest <- DestP
 AbsBase <- AbsP
INVARIANTS Contained NotVacuous Emit
CHECK_DEADLOCK FALSE
