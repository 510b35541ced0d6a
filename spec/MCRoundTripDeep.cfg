SPECIFICATION Spec
CONSTANTS
  Data <- AllData
  Groups <- AllGroups
  MaxChunks = 4
  MaxDepth = 4
  Deltas = {}
  Reg <- ExtReg
  Every = 17
INVARIANTS ReadsBack SameAgain LengthRight SameHandlers TailIgnored NoPrefixReads Export
CHECK_DEADLOCK FALSE
