SPECIFICATION Spec
CONSTANTS
  NewGroups <- MoveGroups
  NewData <- Seven
  DataId <- BODY
  AddsUsed <- MoveAdds
  PokedSizes = {}
  NewPayloads = {}
  Moves = TRUE
  MaxNodes = 4
  MaxOps = 8
  Every = 11
VIEW View
INVARIANTS LinksRight ContentsRight SizesRight WrongOnlyAbove TypesRight OwnersRight Export
PROPERTY UpdateRight
CHECK_DEADLOCK FALSE
