SPECIFICATION Spec
CONSTANTS
  Files <- FewFiles
  MaxInputs = 2
  Dests <- AllDests
  Caps <- FewCaps
  Befores = {10}
  Aliases = FALSE
  Every = 1000000
PROPERTY Ends
CHECK_DEADLOCK FALSE
