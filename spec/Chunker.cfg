SPECIFICATION Spec
CONSTANTS
  Block = 2
  Force = 1
  MinChunk = 1
  MaxCount = 2
  MaxUnits = 4
  Family = "all"
  MaxPieces = 3
  Emit = FALSE
INVARIANTS Complete Progress SameKey Sizes Done
CHECK_DEADLOCK FALSE
