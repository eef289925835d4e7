SPECIFICATION Spec
CONSTANTS
 Names <- N2
 Contents <- C1
 Depth = 2
 XSets <- X2
 PSets <- P2
 Sample = 0
 Pool = 0
INVARIANTS RuleOK NoDB SubOK Emit
CHECK_DEADLOCK FALSE
