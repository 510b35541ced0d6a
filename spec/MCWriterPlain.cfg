SPECIFICATION Spec
CONSTANTS
  Data <- PlainData
  Groups <- PlainGroups
  MaxChunks = 3
  MaxDepth = 4
  Deltas = {1}
  BufCaps = {0, 9}
  Every = 11
INVARIANTS StoresEncoding FailsIfBroken StoresPrefix WritesAgain BodyExact Export
CHECK_DEADLOCK FALSE
