SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
