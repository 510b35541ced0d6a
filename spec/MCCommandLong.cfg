SPECIFICATION CSpec
CONSTANTS
  Tools = {"iffjoin", "iffpp"}
  Vocabulary <- Few
  MaxWords = 4
INVARIANTS SameAsParse Normal OptionsAnywhere NamesGiven OnlyLastOutput
PROPERTY EndIsFinal
CHECK_DEADLOCK FALSE
