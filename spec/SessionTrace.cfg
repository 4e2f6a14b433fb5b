SPECIFICATION TSpec
CONSTANTS Slots = {1, 2}
  K = 3
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
VIEW TView
