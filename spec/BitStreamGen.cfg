SPECIFICATION GSpec
CONSTANT L = 12
PROPERTIES AlignOK AppendOnly
CHECK_DEADLOCK FALSE
