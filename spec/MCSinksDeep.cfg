SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 3
  MaxDepth = 3
  Deltas = {}
  Kinds <- AllKinds
  Befores <- SomeBefores
  Rooms <- MoreRooms
  Caps <- MoreCaps
  Every = 197
INVARIANTS RoomDecides StoredExactly PrefixOnly Untouched ClosedAgain Export
CHECK_DEADLOCK FALSE
