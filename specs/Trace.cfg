INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Report
CHECK_DEADLOCK FALSE
