SPECIFICATION Spec
CONSTANTS
  ChunkIds <- StructIds
  Sizes <- StructSizes
  Types <- OneType
  Bytes <- OneByte
  FieldBytes <- FB1
  Pads <- Pads0
  MaxLen = 29
  Reg <- DefaultReg
  Scope <- ZeroId
PROPERTY Stops
CHECK_DEADLOCK FALSE
