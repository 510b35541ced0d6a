SPECIFICATION Spec
CONSTANTS
  NewGroups <- CatGroups
  NewData = {}
  DataId <- BODY
  AddsUsed <- TrackAdds
  PokedSizes = {}
  NewPayloads = {}
  Moves = FALSE
  MaxNodes = 4
  MaxOps = 7
  Every = 2
VIEW View
INVARIANTS LinksRight ContentsRight SizesRight WrongOnlyAbove TypesRight OwnersRight Export
PROPERTY UpdateRight
CHECK_DEADLOCK FALSE
