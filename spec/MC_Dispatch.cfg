SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Slow = FALSE
 Noise = {0, 1}
INVARIANTS Unique
