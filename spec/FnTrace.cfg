SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
VIEW FView
