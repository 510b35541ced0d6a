SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 4
  MaxDepth = 3
  Deltas = {}
  Regs <- MoreRegs
  Every = 31
INVARIANTS FindRight KindRight HandledRight Unrelated Balanced Export
CHECK_DEADLOCK FALSE
