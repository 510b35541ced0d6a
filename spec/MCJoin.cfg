SPECIFICATION Spec
CONSTANTS
  Files <- SomeFiles
  MaxInputs = 2
  Dests <- AllDests
  Caps <- SomeCaps
  Befores = {10, 500}
  Aliases = TRUE
  Every = 7
INVARIANTS OutcomeRight Untouched StoredAll AllFreed Accounted Gathered Export
CHECK_DEADLOCK FALSE
