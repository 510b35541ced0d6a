SPECIFICATION Spec
CONSTANTS
  Pieces <- One
  MaxPieces <- MaxTwo
  Olds <- Nothing
  Reg <- ExtReg
  Scope <- TEST
  Every = 1
INVARIANTS ReadAsAlone PositionRight ReadAll WrittenApart RestKept Export
CHECK_DEADLOCK FALSE
