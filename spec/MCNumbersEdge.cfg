SPECIFICATION Spec
CONSTANTS
  Types <- AllTypes
  MaxFields = 1
  ValuesOf <- Edge
  Cuts = TRUE
  Every = 1
INVARIANTS SameValues RightLength Whole AreBytes SizesAgree Export
CHECK_DEADLOCK FALSE
