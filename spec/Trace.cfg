INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Prop <- PropV
  Scale <- ScaleV
INVARIANTS
  Report
  Bounds
  Nested
  Restores
