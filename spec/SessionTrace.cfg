SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Nobody = "none"
