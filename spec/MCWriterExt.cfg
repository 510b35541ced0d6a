SPECIFICATION Spec
CONSTANTS
  Data <- ExtData
  Groups <- ExtGroups
  MaxChunks = 3
  MaxDepth = 4
  Deltas = {}
  BufCaps = {0, 9}
  Every = 5
INVARIANTS StoresEncoding FailsIfBroken StoresPrefix WritesAgain BodyExact Export
CHECK_DEADLOCK FALSE
