INIT SInit
NEXT SNext
CONSTANTS
  Block = 4
  Force = 2
  MinChunk = 2
  MaxCount = 512
  MaxUnits = 6
  Family = "all"
  MaxPieces = 0
  Marks = {0, 1}
  Emit = FALSE
INVARIANTS StoredOnce SEmit
CHECK_DEADLOCK FALSE
