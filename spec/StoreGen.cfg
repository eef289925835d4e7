SPECIFICATION Spec
CONSTANTS
  C = {"A", "B", "D"}
  K = {"k1", "k2", "k3", "big"}
  Heads = {"h1", "h2"}
  Refs = {"r1", "r2"}
  Rems = {"", "o1"}
  MaxWrites = 6
  MaxLog = 12
  MaxVer = 1000
  Depth = 40
  EmitSim = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
