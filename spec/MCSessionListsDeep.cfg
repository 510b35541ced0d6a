SPECIFICATION Spec
CONSTANTS
  NewGroups <- ListGroups
  NewData = {}
  DataId <- BODY
  AddsUsed <- ListAdds
  PokedSizes = {}
  NewPayloads = {}
  Moves = FALSE
  MaxNodes = 5
  MaxOps = 8
  Every = 101
VIEW View
INVARIANTS LinksRight ContentsRight SizesRight WrongOnlyAbove TypesRight OwnersRight Export
PROPERTY UpdateRight
CHECK_DEADLOCK FALSE
