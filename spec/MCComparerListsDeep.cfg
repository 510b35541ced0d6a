SPECIFICATION Spec
CONSTANTS
  Data <- FewData
  Groups <- FewGroups
  Data2 <- FewData
  Groups2 <- FewGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {}
  Every = 97
INVARIANTS CompareRight EncodingTells Export
CHECK_DEADLOCK FALSE
