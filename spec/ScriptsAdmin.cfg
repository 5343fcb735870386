SPECIFICATION ASpec
CHECK_DEADLOCK FALSE
