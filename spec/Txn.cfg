SPECIFICATION Spec
CONSTANTS
  Modes <- One
  MaxWait = 3
  EmitSched = FALSE
INVARIANTS Exclusion Committed Emit
PROPERTIES NoLostUpdate
CHECK_DEADLOCK FALSE
