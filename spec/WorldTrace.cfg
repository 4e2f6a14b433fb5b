SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
VIEW WView
