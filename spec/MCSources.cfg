SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 2
  MaxDepth = 3
  Deltas = {}
  Kinds <- AllKinds
  Tails <- SomeTails
  Caps <- SomeCaps
  Patterns <- SomePatterns
  ErrAts <- SomeErrs
  Reg <- DefaultReg
  Every = 7
INVARIANTS BytesDecide ReportsRight TakenRight InOrder ClosedAgain Export
CHECK_DEADLOCK FALSE
