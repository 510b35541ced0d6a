SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 3
  MaxDepth = 3
  Deltas = {}
  Regs <- SomeRegs
  Every = 1
INVARIANTS FindRight KindRight HandledRight Unrelated Balanced Export
CHECK_DEADLOCK FALSE
