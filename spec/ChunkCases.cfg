INIT CInit
NEXT CNext
CONSTANTS
  Block = 4
  Force = 2
  MinChunk = 2
  MaxCount = 512
  MaxUnits = 3
  Family = "levels"
  MaxPieces = 0
  Emit = TRUE
CHECK_DEADLOCK FALSE
