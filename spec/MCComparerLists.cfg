SPECIFICATION Spec
CONSTANTS
  Data <- FewData
  Groups <- FewGroups
  Data2 <- FewData
  Groups2 <- FewGroups
  MaxChunks = 3
  MaxDepth = 4
  Deltas = {}
  Every = 5
INVARIANTS CompareRight EncodingTells Export
CHECK_DEADLOCK FALSE
