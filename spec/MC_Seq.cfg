SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPk = 4
 TypeNames = {"sx7::Sysex7", "sx8::Sysex8", "flex::Lyrics", "flex::ProjectName", "stream::EndpointName", "stream::FunctionBlockName", "stream::ProductInstanceId"}
INVARIANTS Acceptance Extent Contents Partition
