INIT TInit
NEXT TNext
INVARIANT Ended
CHECK_DEADLOCK FALSE
