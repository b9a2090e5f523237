SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxPk = 2
 MaxCalls = 3
 Whats = {"pl", "pk", "tx"}
INVARIANTS Refines SameAnswer Exhausted
