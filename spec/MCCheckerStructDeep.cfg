SPECIFICATION Spec
CONSTANTS
  Data <- StructData
  Groups <- StructGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {1, 2}
  Every = 7
INVARIANTS VerdictRight ViolationsRight ReportsRight Export
CHECK_DEADLOCK FALSE
