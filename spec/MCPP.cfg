SPECIFICATION Spec
CONSTANTS
  Files <- AllFiles
  Sources = {"name", "stdin"}
INVARIANTS OutcomeRight NothingOfRefused AllFreed Export
CHECK_DEADLOCK FALSE
