SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 2
  MaxDepth = 3
  Deltas = {}
  Kinds <- AllKinds
  Tails <- MoreTails
  Caps <- SomeCaps
  Patterns <- MorePatterns
  ErrAts <- SomeErrs
  Reg <- DefaultReg
  Every = 997
INVARIANTS BytesDecide ReportsRight TakenRight InOrder ClosedAgain Export
CHECK_DEADLOCK FALSE
