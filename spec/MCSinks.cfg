SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 3
  MaxDepth = 3
  Deltas = {}
  Kinds <- AllKinds
  Befores <- SomeBefores
  Rooms <- SomeRooms
  Caps <- SomeCaps
  Every = 7
INVARIANTS RoomDecides StoredExactly PrefixOnly Untouched ClosedAgain Export
CHECK_DEADLOCK FALSE
