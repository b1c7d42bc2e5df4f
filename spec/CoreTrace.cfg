SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  Chunk = 50
  Fuel = 2000
