SPECIFICATION Spec
CONSTANTS
 Names <- N2
 Contents <- C2
 MaxDepth = 2
 Refs <- R2
 Remotes <- M0
 Msgs <- G1
 WTs <- W3
 XSets <- X0
 Acts <- ACommit
 MaxCommits = 3
 MaxLog = 2
 MaxRoots = 2
 EmitMode = "none"
VIEW View
INVARIANTS TypeOK NoDangling
PROPERTIES AppendOnly CommitLinks FailNothing QueriesPure HeadOnlyBy CleanSwitch InitOnce LogComplete CheckoutExact
ACTION_CONSTRAINTS EmitLts EmitSim
CHECK_DEADLOCK FALSE
