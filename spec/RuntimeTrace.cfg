SPECIFICATION TraceSpec
POSTCONDITION Progress
CHECK_DEADLOCK FALSE
