SPECIFICATION Spec
CONSTANTS
  Types <- AllTypes
  MaxFields = 4
  ValuesOf <- FewEdge
  Cuts = TRUE
  Every = 7
INVARIANTS SameValues RightLength Whole AreBytes SizesAgree Export
CHECK_DEADLOCK FALSE
