SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS TypeNames = {"flex::Lyrics", "stream::EndpointName", "stream::FunctionBlockName"}
 Bufs = {"SV", "ST"}
 MaxPk = 2
 Wide = FALSE
INVARIANTS IsText Legality Headers Minimal
