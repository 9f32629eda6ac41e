SPECIFICATION TSpec
CONSTANT Relaxed = {}
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
