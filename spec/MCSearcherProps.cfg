SPECIFICATION Spec
CONSTANTS
  Data <- LookData
  Groups <- LookGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {}
  TypeSets = {}
  Wanted <- OnlyBody
  Every = 7
INVARIANTS SearchRight LookupRight IdentitiesRight Export
CHECK_DEADLOCK FALSE
