SPECIFICATION Spec
CONSTANTS
  Chars <- FewChars
  What = "id"
  Every = 499
INVARIANTS Right Generic Export
PROPERTY Settled
CHECK_DEADLOCK FALSE
