SPECIFICATION Spec
CONSTANTS
  Data <- PlainData
  Groups <- PlainGroups
  MaxChunks = 2
  MaxDepth = 4
  Deltas = {}
  BufCaps = {0, 9}
  Every = 1
PROPERTY Ends
CHECK_DEADLOCK FALSE
