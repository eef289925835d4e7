SPECIFICATION Spec
CONSTANTS
 Lines = {1, 2}
 MaxLen = 7
 Before = 1
 After = 2
 OwnCounts = TRUE
 Emit = FALSE
INVARIANTS Leads Counts AllShown
CHECK_DEADLOCK FALSE
