SPECIFICATION Spec
CONSTANTS
  Data <- AllData
  Groups <- AllGroups
  MaxChunks = 3
  MaxDepth = 4
  Deltas <- Spoil
  Indents = {0, 3}
  Every = 29
INVARIANTS TextRight Complete Export
CHECK_DEADLOCK FALSE
