SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS TypeNames = {"cv1::NoteOn", "cv1::ProgramChange", "sys::TimingClock", "sys::SongPositionPointer", "sx7::Sysex7", "sx8::Sysex8", "cv2::NoteOn", "flex::SetTempo", "flex::Lyrics", "stream::EndpointInfo", "util::NoOp", "ci::DiscoveryQuery2"}
 Steps = 3
 SxLens = {0, 6, 13}
INVARIANTS Survives Legality Same There
