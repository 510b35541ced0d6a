SPECIFICATION CSpec
CONSTANTS
  Tools = {"iffjoin", "iffpp"}
  Vocabulary <- Few
  MaxWords = 5
INVARIANTS SameAsParse Normal OptionsAnywhere NamesGiven OnlyLastOutput
PROPERTY EndIsFinal
CHECK_DEADLOCK FALSE
