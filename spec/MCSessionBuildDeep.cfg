SPECIFICATION Spec
CONSTANTS
  NewGroups <- BuildGroups
  NewData <- Odd
  DataId <- BODY
  AddsUsed <- BuildAdds
  PokedSizes = {}
  NewPayloads = {}
  Moves = FALSE
  MaxNodes = 4
  MaxOps = 8
  Every = 101
VIEW View
INVARIANTS LinksRight ContentsRight SizesRight WrongOnlyAbove TypesRight OwnersRight Export
PROPERTY UpdateRight
CHECK_DEADLOCK FALSE
