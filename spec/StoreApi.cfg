SPECIFICATION Spec
CONSTANTS
  C = {"A", "B"}
  K = {"k1"}
  Heads = {"h1"}
  Refs = {"r1"}
  Rems = {""}
  MaxWrites = 2
  MaxLog = 2
  MaxVer = 4
  Depth = 1000
  EmitSim = FALSE
INVARIANTS Emit Fresh
PROPERTIES Isolation Monotone
CHECK_DEADLOCK FALSE
VIEW StateView
