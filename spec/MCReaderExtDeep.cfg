SPECIFICATION Spec
CONSTANTS
  ChunkIds <- ExtIds
  Sizes <- ExtSizes
  Types <- TwoTypes
  Bytes <- OneByte
  FieldBytes <- FB1
  Pads <- Pads2
  MaxLen = 52
  Reg <- ExtReg
  Scope <- ZeroId
INVARIANTS ReadsDecode FailsOnlyIfIncomplete NothingLeaked LinksRight HandlersRight WarningsRight OneOwner FieldsWithinChunk Reproduces Export
CHECK_DEADLOCK FALSE
