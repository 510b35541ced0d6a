SPECIFICATION Spec
CONSTANTS
  Data <- MixData
  Groups <- MixGroups
  Data2 <- FewData
  Groups2 <- MixGroups2
  MaxChunks = 3
  MaxDepth = 4
  Deltas = {2}
  Every = 97
INVARIANTS CompareRight EncodingTells Export
CHECK_DEADLOCK FALSE
