SPECIFICATION Spec
CONSTANTS
  Pieces <- Two
  MaxPieces <- TwoOne
  Olds <- Filled
  Reg <- ExtReg
  Scope <- TEST
  Every = 7
INVARIANTS ReadAsAlone PositionRight ReadAll WrittenApart RestKept Export
CHECK_DEADLOCK FALSE
