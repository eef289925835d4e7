SPECIFICATION Spec
CONSTANTS
  N = 4
  Procs = {1, 2}
  Txn = TRUE
  ChildFirst = TRUE
  TrustCache = FALSE
  CheckRef = TRUE
INVARIANTS Closed
CHECK_DEADLOCK FALSE
