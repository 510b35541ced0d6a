SPECIFICATION Spec
CONSTANTS
  Data <- StructData
  Groups <- FewGroups
  MaxChunks = 6
  MaxDepth = 4
  Deltas = {2}
  Every = 97
INVARIANTS VerdictRight ViolationsRight ReportsRight Export
CHECK_DEADLOCK FALSE
