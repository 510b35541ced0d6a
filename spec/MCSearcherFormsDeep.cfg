SPECIFICATION Spec
CONSTANTS
  Data <- SearchData
  Groups <- SearchGroups
  MaxChunks = 5
  MaxDepth = 5
  Deltas = {}
  TypeSets <- SearchSets
  Wanted = {}
  Every = 101
INVARIANTS SearchRight LookupRight IdentitiesRight Export
CHECK_DEADLOCK FALSE
