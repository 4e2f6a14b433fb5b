SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
VIEW TView
