SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
  Len0 = 20
  L = 7
INVARIANT Alone
CHECK_DEADLOCK FALSE
