SPECIFICATION Spec
CONSTANTS
  ChunkIds <- EdgeIds
  Sizes <- EdgeSizes
  Types <- OneType
  Bytes <- TwoBytes
  FieldBytes <- FB1
  Pads <- Pads2
  MaxLen = 24
  Reg <- DefaultReg
  Scope <- ZeroId
INVARIANTS ReadsDecode FailsOnlyIfIncomplete NothingLeaked LinksRight HandlersRight WarningsRight OneOwner FieldsWithinChunk Reproduces Export
CHECK_DEADLOCK FALSE
