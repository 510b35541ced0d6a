SPECIFICATION Spec
CONSTANTS
  Pieces <- One
  MaxPieces <- MaxThree
  Olds <- Nothing
  Reg <- ExtReg
  Scope <- TEST
  Every = 97
INVARIANTS ReadAsAlone PositionRight ReadAll WrittenApart RestKept Export
CHECK_DEADLOCK FALSE
