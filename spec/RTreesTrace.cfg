SPECIFICATION TraceSpec
CONSTANT Regs = {0, 1, 2}
POSTCONDITION Progress
CHECK_DEADLOCK FALSE
