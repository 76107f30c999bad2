SPECIFICATION Spec
CONSTANTS
  Prop <- PropV
  Scale <- ScaleV
INVARIANTS
  Bounds
  Nested
  Restores
  Advances
  Sticks
  NoLookVal
  WithinMatch
  Agrees
  WellTyped
  Laws
PROPERTIES
  LogInPrefix
  LookCallsNothing
