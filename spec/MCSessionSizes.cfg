SPECIFICATION Spec
CONSTANTS
  NewGroups <- SizeGroups
  NewData <- Seven
  DataId <- BODY
  AddsUsed <- BuildAdds
  PokedSizes <- Poked
  NewPayloads <- NewPay
  Moves = FALSE
  MaxNodes = 3
  MaxOps = 7
  Every = 11
VIEW View
INVARIANTS LinksRight ContentsRight SizesRight WrongOnlyAbove TypesRight OwnersRight Export
PROPERTY UpdateRight
CHECK_DEADLOCK FALSE
