SPECIFICATION Spec
CONSTANTS
  NewGroups <- BuildGroups
  NewData <- Odd
  DataId <- BODY
  AddsUsed <- BuildAdds
  PokedSizes = {}
  NewPayloads = {}
  Moves = FALSE
  MaxNodes = 4
  MaxOps = 7
  Every = 11
VIEW View
INVARIANTS LinksRight ContentsRight SizesRight WrongOnlyAbove TypesRight OwnersRight Export
PROPERTY UpdateRight
CHECK_DEADLOCK FALSE
