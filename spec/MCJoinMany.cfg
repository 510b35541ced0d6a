SPECIFICATION Spec
CONSTANTS
  Files <- FewFiles
  MaxInputs = 4
  Dests <- AllDests
  Caps <- SomeCaps
  Befores = {10, 500}
  Aliases = TRUE
  Every = 41
INVARIANTS OutcomeRight Untouched StoredAll AllFreed Accounted Gathered Export
CHECK_DEADLOCK FALSE
