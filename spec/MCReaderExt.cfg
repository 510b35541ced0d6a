SPECIFICATION Spec
CONSTANTS
  ChunkIds <- ExtIds
  Sizes <- ExtSizes
  Types <- TwoTypes
  Bytes <- OneByte
  FieldBytes <- FB1
  Pads <- Pads2
  MaxLen = 40
  Reg <- ExtReg
  Scope <- ZeroId
INVARIANTS ReadsDecode FailsOnlyIfIncomplete NothingLeaked LinksRight HandlersRight WarningsRight OneOwner FieldsWithinChunk Reproduces Export
CHECK_DEADLOCK FALSE
