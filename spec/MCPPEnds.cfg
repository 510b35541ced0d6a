SPECIFICATION Spec
CONSTANTS
  Files <- FewFiles
  Sources = {"name", "stdin"}
INVARIANTS OutcomeRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
