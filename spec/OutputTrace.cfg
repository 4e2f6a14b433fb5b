SPECIFICATION OSpec
VIEW OView
CHECK_DEADLOCK FALSE
