SPECIFICATION Spec
CONSTANTS
  Data <- MixData
  Groups <- MixGroups
  Data2 <- MixData
  Groups2 <- MixGroups2
  MaxChunks = 2
  MaxDepth = 4
  Deltas = {2}
  Every = 5
INVARIANTS CompareRight EncodingTells Export
CHECK_DEADLOCK FALSE
