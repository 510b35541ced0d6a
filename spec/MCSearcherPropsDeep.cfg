SPECIFICATION Spec
CONSTANTS
  Data <- LookData
  Groups <- LookGroups
  MaxChunks = 5
  MaxDepth = 5
  Deltas = {}
  TypeSets = {}
  Wanted <- OnlyBody
  Every = 101
INVARIANTS SearchRight LookupRight IdentitiesRight Export
CHECK_DEADLOCK FALSE
