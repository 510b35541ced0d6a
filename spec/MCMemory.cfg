SPECIFICATION MSpec
CONSTANTS
  ChunkIds <- MemIds
  Sizes <- MemSizes
  Types <- OneType
  Bytes <- OneByte
  FieldBytes <- FB1
  Pads <- Pads0
  MaxLen = 33
  Reg <- MemReg
  Scope <- ZeroId
  Supplies = {0, 1, 2, 3, 4, 5, 100}
INVARIANTS BlocksOwned BlocksComplete AllReleased NeverTwice ScarcityFails HandlersOfExisting ReadsDecode OwnedUntilFreed Export
CHECK_DEADLOCK FALSE
