SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
VIEW PView
