SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS Bufs = {"SV"}
 MaxLen = 2
 LayMax = 2
 Wide = FALSE
INVARIANTS IsList Legality Headers Canonical Algebra
