SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 1
  MaxDepth = 3
  Deltas = {}
  Kinds <- AllKinds
  Tails <- SomeTails
  Caps <- SomeCaps
  Patterns <- SomePatterns
  ErrAts <- SomeErrs
  Reg <- DefaultReg
  Every = 1000000
PROPERTY Ends
CHECK_DEADLOCK FALSE
