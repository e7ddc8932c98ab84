SPECIFICATION TraceSpec
CONSTANT Regs = {0, 1, 2, 3, 4, 5}
POSTCONDITION Progress
CHECK_DEADLOCK FALSE
