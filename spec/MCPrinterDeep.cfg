SPECIFICATION Spec
CONSTANTS
  Data <- AllData
  Groups <- AllGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {}
  Indents = {1}
  Every = 97
INVARIANTS TextRight Complete Export
CHECK_DEADLOCK FALSE
