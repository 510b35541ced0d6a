SPECIFICATION Spec
CONSTANTS
  Pieces <- Two
  MaxPieces <- TwoTwo
  Olds <- Filled
  Reg <- ExtReg
  Scope <- TEST
  Every = 31
INVARIANTS ReadAsAlone PositionRight ReadAll WrittenApart RestKept Export
CHECK_DEADLOCK FALSE
