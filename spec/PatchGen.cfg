SPECIFICATION GSpec
CONSTANTS
 Lines = {1, 2, 3, 4}
 MaxLen = 40
 Before = 3
 After = 5
 OwnCounts = TRUE
 Emit = TRUE
INVARIANTS Leads Counts
ACTION_CONSTRAINT EmitPair
CHECK_DEADLOCK FALSE
