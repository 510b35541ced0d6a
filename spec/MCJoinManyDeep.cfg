SPECIFICATION Spec
CONSTANTS
  Files <- SomeFiles
  MaxInputs = 4
  Dests <- AllDests
  Caps <- FewCaps
  Befores = {10}
  Aliases = FALSE
  Every = 499
INVARIANTS OutcomeRight Untouched StoredAll AllFreed Accounted Gathered Export
CHECK_DEADLOCK FALSE
