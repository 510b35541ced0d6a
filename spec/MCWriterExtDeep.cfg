SPECIFICATION Spec
CONSTANTS
  Data <- ExtData
  Groups <- ExtGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {1}
  BufCaps = {0, 5, 9}
  Every = 101
INVARIANTS StoresEncoding FailsIfBroken StoresPrefix WritesAgain BodyExact Export
CHECK_DEADLOCK FALSE
