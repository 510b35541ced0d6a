SPECIFICATION Spec
CONSTANTS
  Files <- SomeFiles
  MaxInputs = 3
  Dests <- AllDests
  Caps <- SomeCaps
  Befores = {10, 500}
  Aliases = TRUE
  Every = 97
INVARIANTS OutcomeRight Untouched StoredAll AllFreed Accounted Gathered Export
CHECK_DEADLOCK FALSE
