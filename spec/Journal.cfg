SPECIFICATION Spec
CONSTANTS
  AllUpTo = 6
  Pages = {p1, p2}
  Vals = {v0, v1}
  SyncJournal = TRUE
  SyncHeader = TRUE
  SyncDb = TRUE
  SyncCommit = TRUE
  SyncDir = TRUE
  MaxTx = 2
INVARIANT CrashSafe
CHECK_DEADLOCK FALSE
