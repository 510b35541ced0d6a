SPECIFICATION Spec
CONSTANTS
  Data <- AllData
  Groups <- AllGroups
  MaxChunks = 3
  MaxDepth = 4
  Deltas = {1}
  Reg <- ExtReg
  Every = 5
INVARIANTS ReadsBack SameAgain LengthRight SameHandlers TailIgnored NoPrefixReads Export
CHECK_DEADLOCK FALSE
