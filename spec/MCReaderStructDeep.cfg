SPECIFICATION Spec
CONSTANTS
  ChunkIds <- StructIds
  Sizes <- StructSizes
  Types <- OneType
  Bytes <- OneByte
  FieldBytes <- FB1
  Pads <- Pads0
  MaxLen = 60
  Reg <- DefaultReg
  Scope <- ZeroId
INVARIANTS ReadsDecode FailsOnlyIfIncomplete NothingLeaked LinksRight HandlersRight WarningsRight OneOwner FieldsWithinChunk Reproduces Export
CHECK_DEADLOCK FALSE
