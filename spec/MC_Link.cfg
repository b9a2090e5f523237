SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Casts = {"sysex7"}
 MaxLost = 1
INVARIANTS InOrder Nothing Clean Whole1 Formed Alone Readable Same
