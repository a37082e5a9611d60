SPECIFICATION Theory
CHECK_DEADLOCK FALSE
