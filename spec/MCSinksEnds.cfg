SPECIFICATION Spec
CONSTANTS
  Data <- SomeData
  Groups <- SomeGroups
  MaxChunks = 2
  MaxDepth = 3
  Deltas = {}
  Kinds <- AllKinds
  Befores <- SomeBefores
  Rooms <- SomeRooms
  Caps <- SomeCaps
  Every = 1000000
PROPERTY Ends
CHECK_DEADLOCK FALSE
