SPECIFICATION Spec
CONSTANTS
  Data <- SearchData
  Groups <- NestGroups
  MaxChunks = 5
  MaxDepth = 5
  Deltas = {}
  TypeSets = {}
  Wanted <- OnlyBody
  Every = 7
INVARIANTS SearchRight LookupRight IdentitiesRight Export
CHECK_DEADLOCK FALSE
