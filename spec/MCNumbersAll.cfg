SPECIFICATION Spec
CONSTANTS
  Types <- Narrow
  MaxFields = 1
  ValuesOf <- Full
  Cuts = FALSE
  Every = 97
INVARIANTS SameValues RightLength Whole AreBytes SizesAgree Export
CHECK_DEADLOCK FALSE
