CHECK_DEADLOCK FALSE
