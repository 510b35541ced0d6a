SPECIFICATION CSpec
CONSTANTS
  Tools = {"iffjoin", "iffpp"}
  Vocabulary <- Words
  MaxWords = 4
INVARIANTS SameAsParse Normal OptionsAnywhere NamesGiven OnlyLastOutput Export
PROPERTY EndIsFinal
CHECK_DEADLOCK FALSE
