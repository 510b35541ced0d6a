SPECIFICATION CSpec
CONSTANTS
  Tools = {"iffjoin", "iffpp"}
  Vocabulary <- Words
  MaxWords = 3
INVARIANTS SameAsParse Normal OptionsAnywhere NamesGiven OnlyLastOutput Export
PROPERTY EndIsFinal
CHECK_DEADLOCK FALSE
