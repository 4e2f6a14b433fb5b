SPECIFICATION VSpec
CHECK_DEADLOCK FALSE
VIEW VView
