SPECIFICATION Spec
CONSTANTS
  Data <- NameData
  Groups <- NameGroups
  MaxChunks = 3
  MaxDepth = 4
  Deltas = {1, 2}
  Every = 2
INVARIANTS VerdictRight ViolationsRight ReportsRight Export
CHECK_DEADLOCK FALSE
