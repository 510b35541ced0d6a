SPECIFICATION Spec
CONSTANTS
  Data <- SearchData
  Groups <- NestGroups
  MaxChunks = 6
  MaxDepth = 5
  Deltas = {}
  TypeSets = {}
  Wanted <- OnlyBody
  Every = 47
INVARIANTS SearchRight LookupRight IdentitiesRight Export
CHECK_DEADLOCK FALSE
