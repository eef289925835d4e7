SPECIFICATION Spec
CONSTANTS
  Modes <- Long
  MaxWait = 30
  EmitSched = TRUE
INVARIANTS Exclusion Emit
CHECK_DEADLOCK FALSE
