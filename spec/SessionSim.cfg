SPECIFICATION GSpec
CONSTANTS Slots = {1, 2}
  K = 3
  L = 14
INVARIANT TypeOK
PROPERTY LocalOK
CHECK_DEADLOCK FALSE
