SPECIFICATION Spec
CONSTANT Test <- TraceTest
VIEW View
CHECK_DEADLOCK FALSE
