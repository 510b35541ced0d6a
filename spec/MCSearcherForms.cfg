SPECIFICATION Spec
CONSTANTS
  Data <- SearchData
  Groups <- SearchGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {}
  TypeSets <- SearchSets
  Wanted = {}
  Every = 7
INVARIANTS SearchRight LookupRight IdentitiesRight Export
CHECK_DEADLOCK FALSE
