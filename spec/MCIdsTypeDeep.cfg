SPECIFICATION Spec
CONSTANTS
  Chars <- AllChars
  What = "type"
  Every = 499
INVARIANTS Right Generic Export
PROPERTY Settled
CHECK_DEADLOCK FALSE
