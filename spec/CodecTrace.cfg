SPECIFICATION TSpec
INVARIANTS StackSane CtxSane
CHECK_DEADLOCK FALSE
VIEW TView
