SPECIFICATION JSpec
CONSTANTS
 Lines = {1}
 MaxLen = 0
 Before = 3
 After = 5
 OwnCounts = TRUE
 Emit = FALSE
CHECK_DEADLOCK FALSE
