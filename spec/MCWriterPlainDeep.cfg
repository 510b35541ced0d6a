SPECIFICATION Spec
CONSTANTS
  Data <- PlainData
  Groups <- PlainGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {}
  BufCaps = {9}
  Every = 101
INVARIANTS StoresEncoding FailsIfBroken StoresPrefix WritesAgain BodyExact Export
CHECK_DEADLOCK FALSE
