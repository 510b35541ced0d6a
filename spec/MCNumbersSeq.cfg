SPECIFICATION Spec
CONSTANTS
  Types <- AllTypes
  MaxFields = 3
  ValuesOf <- FewEdge
  Cuts = TRUE
  Every = 1
INVARIANTS SameValues RightLength Whole AreBytes SizesAgree Export
CHECK_DEADLOCK FALSE
