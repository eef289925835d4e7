SPECIFICATION GSpec
CONSTANTS
  Files = {1, 2}
  Repos = {1}
  Contents = {1, 2}
  Inodes = {1, 2, 3}
  MaxNow = 2
  MaxSteps = 6
  UseCtime = TRUE
  UseInode = TRUE
  Settle = "ct"
  CheckStored = TRUE
  Emit = FALSE
INVARIANTS Same
ACTION_CONSTRAINT EmitC
CHECK_DEADLOCK FALSE
