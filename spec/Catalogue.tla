----------------------------- MODULE Catalogue -----------------------------
(* Every message type of the library: its header bits, its size and its      *)
(* fields, transcribed from the MIDI 2.0 UMP and MIDI 1.0 documents (M2-104, *)
(* M2-101), not from the code.  Bit offsets count from the most significant  *)
(* bit of the first octet of the message.                                    *)
EXTENDS Octets, TLC

(* field: name, kind, bit offset, width, default value.  Kinds:
   grp   group, in every packet            u    number of w <= 24 bits
   q     32 bit number (4 octets)          b    one bit flag
   l14   two septets, LSB first            l28  four septets, LSB first
   s7    w septets                         att  note attribute (tag octet + 16 bit)
   ctl   controller (index octet + 32 bit) bank optional bank (flag + 2 septets)
   och   optional channel, in every packet (address crumb + channel nibble)
   fbn   function block, in every packet   sid  stream id, in every packet
   ton csf cty alt ksf hint port dir dev   coded values, see Codec            *)
F(n, k, o, w, d) == [n |-> n, k |-> k, o |-> o, w |-> w, d |-> d]
U(n, o, w) == F(n, "u", o, w, 0)
B1(n, o) == F(n, "b", o, 1, 0)
Q(n, o) == F(n, "q", o, 32, <<0, 0, 0, 0>>)
G == F("group", "grp", 4, 4, 0)
C == U("channel", 12, 4)

(* message: type name, family, kind, octets of the UMP form (one packet), octets of the byte form (0: none),
   fixed header bits <<offset, width, value>> of every packet, fields *)
M(ty, fam, kind, size, bsize, hdr, fields) ==
    [ty |-> ty, fam |-> fam, kind |-> kind, size |-> size, bsize |-> bsize, hdr |-> hdr, fields |-> fields]

Cv1(n, st, bs, fs) == M(n, "cv1", "fixed", 4, bs, <<<<0, 4, 2>>, <<8, 4, st>>>>, <<G, C>> \o fs)
Cv2(n, st, fs) == M(n, "cv2", "fixed", 8, 0, <<<<0, 4, 4>>, <<8, 4, st>>>>, <<G, C>> \o fs)
Sys(n, st, bs, fs) == M(n, "sys", "fixed", 4, bs, <<<<0, 4, 1>>, <<8, 8, st>>>>, <<G>> \o fs)
Util(n, st, fs) == M(n, "util", "fixed", 4, 0, <<<<0, 4, 0>>, <<8, 4, st>>>>, fs)
(* flex data: format bits 8-9, address bits 10-11, channel bits 12-15, bank octet 3, status octet 4 *)
FlexF(n, st, ch, fs) == M(n, "flex", IF ch THEN "fixed" ELSE "fixnc", 16, 0, <<<<0, 4, 13>>, <<8, 2, 0>>, <<16, 8, 0>>, <<24, 8, st>>>>,
                          <<G>> \o fs)
Och == F("optional_channel", "och", 10, 6, -1)
FlexT(n, bank, st) == M(n, "flex", "text", 16, 0, <<<<0, 4, 13>>, <<16, 8, bank>>, <<24, 8, st>>>>, <<G, Och>>)
StrF(n, st, size, fs) == M(n, "stream", "fixed", size, 0, <<<<0, 4, 15>>, <<4, 2, 0>>, <<6, 10, st>>>>, fs)
StrT(n, st, fs) == M(n, "stream", "text", 16, 0, <<<<0, 4, 15>>, <<6, 10, st>>>>, fs)

NoteNo == U("note_number", 17, 7)
Alt(n, o) == F(n, "alt", o, 8, <<"None", 0>>)
S7(n, o, k) == F(n, "s7", o, k, Zeros(k))
L14(n, o) == F(n, "l14", o, 16, 0)
L28(n, o) == F(n, "l28", o, 32, 0)

Cv1Types == <<
  Cv1("cv1::NoteOff", 8, 3, <<NoteNo, U("velocity", 25, 7)>>),
  Cv1("cv1::NoteOn", 9, 3, <<NoteNo, U("velocity", 25, 7)>>),
  Cv1("cv1::KeyPressure", 10, 3, <<NoteNo, U("pressure", 25, 7)>>),
  Cv1("cv1::ControlChange", 11, 3, <<U("control", 17, 7), U("control_data", 25, 7)>>),
  Cv1("cv1::ProgramChange", 12, 2, <<U("program", 17, 7)>>),
  Cv1("cv1::ChannelPressure", 13, 2, <<U("pressure", 17, 7)>>),
  Cv1("cv1::PitchBend", 14, 3, <<L14("bend", 16)>>) >>

Bank7 == U("bank", 17, 7)
Index7 == U("index", 25, 7)
Att == F("attribute", "att", 24, 8, <<"None", 0>>)
Cv2Types == <<
  Cv2("cv2::RegisteredPerNoteController", 0, <<NoteNo, F("controller", "ctl", 24, 8, <<"Modulation", 0, 0, 0, 0, 0>>)>>),
  Cv2("cv2::AssignablePerNoteController", 1, <<NoteNo, U("index", 24, 8), Q("controller_data", 32)>>),
  Cv2("cv2::RegisteredController", 2, <<Bank7, Index7, Q("controller_data", 32)>>),
  Cv2("cv2::AssignableController", 3, <<Bank7, Index7, Q("controller_data", 32)>>),
  Cv2("cv2::RelativeRegisteredController", 4, <<Bank7, Index7, Q("controller_data", 32)>>),
  Cv2("cv2::RelativeAssignableController", 5, <<Bank7, Index7, Q("controller_data", 32)>>),
  Cv2("cv2::PerNotePitchBend", 6, <<NoteNo, Q("pitch_bend_data", 32)>>),
  Cv2("cv2::NoteOff", 8, <<NoteNo, U("velocity", 32, 16), Att>>),
  Cv2("cv2::NoteOn", 9, <<NoteNo, U("velocity", 32, 16), Att>>),
  Cv2("cv2::KeyPressure", 10, <<NoteNo, Q("key_pressure_data", 32)>>),
  Cv2("cv2::ControlChange", 11, <<U("control", 17, 7), Q("control_change_data", 32)>>),
  Cv2("cv2::ProgramChange", 12, <<U("program", 33, 7), F("bank", "bank", 48, 16, -1)>>),
  Cv2("cv2::ChannelPressure", 13, <<Q("channel_pressure_data", 32)>>),
  Cv2("cv2::ChannelPitchBend", 14, <<Q("pitch_bend_data", 32)>>),
  Cv2("cv2::PerNoteManagement", 15, <<NoteNo, B1("detach", 30), B1("reset", 31)>>) >>

SysTypes == <<
  Sys("sys::TuneRequest", 246, 1, <<>>), Sys("sys::TimingClock", 248, 1, <<>>), Sys("sys::Start", 250, 1, <<>>),
  Sys("sys::Continue", 251, 1, <<>>), Sys("sys::Stop", 252, 1, <<>>), Sys("sys::ActiveSensing", 254, 1, <<>>),
  Sys("sys::Reset", 255, 1, <<>>),
  Sys("sys::TimeCode", 241, 2, <<U("time_code", 17, 7)>>),
  Sys("sys::SongSelect", 243, 2, <<U("song", 17, 7)>>),
  Sys("sys::SongPositionPointer", 242, 3, <<L14("position", 16)>>) >>

UtilTypes == <<
  Util("util::NoOp", 0, <<>>), Util("util::Clock", 1, <<U("time_data", 16, 16)>>), Util("util::Timestamp", 2, <<U("time_data", 16, 16)>>),
  Util("util::DeltaClockstampTpq", 3, <<U("time_data", 16, 16)>>), Util("util::DeltaClockstamp", 4, <<U("time_data", 12, 20)>>) >>

Ton(n, o) == F(n, "ton", o, 4, "C")
Csf(n, o) == F(n, "csf", o, 4, "Natural")
Cty(n, o) == F(n, "cty", o, 8, "ClearChord")
FlexFixed == <<
  FlexF("flex::SetTempo", 0, FALSE, <<Q("number_of_10_nanosecond_units_per_quarter_note", 32)>>),
  FlexF("flex::SetTimeSignature", 1, FALSE, <<U("numerator", 32, 8), U("denominator", 40, 8), U("number_of_32nd_notes", 48, 8)>>),
  FlexF("flex::SetMetronome", 2, FALSE, <<U("number_of_clocks_per_primary_click", 32, 8), U("bar_accent1", 40, 8), U("bar_accent2", 48, 8),
        U("bar_accent3", 56, 8), U("number_of_subdivision_clicks1", 64, 8), U("number_of_subdivision_clicks2", 72, 8)>>),
  FlexF("flex::SetKeySignature", 5, TRUE, <<Och, Ton("tonic", 36), F("sharps_flats", "ksf", 32, 4, <<"Sharps", 0>>)>>),
  FlexF("flex::SetChordName", 6, TRUE, <<Och, Csf("tonic_sharps_flats", 32), Ton("tonic", 36), Cty("chord_type", 40), Alt("chord_alteration1", 48),
        Alt("chord_alteration2", 56), Alt("chord_alteration3", 64), Alt("chord_alteration4", 72), Csf("bass_sharps_flats", 96),
        Ton("bass_note", 100), Cty("bass_chord_type", 104), Alt("bass_alteration1", 112), Alt("bass_alteration2", 120)>>) >>
FlexText == <<
  FlexT("flex::UnknownMetadataText", 1, 0), FlexT("flex::ProjectName", 1, 1), FlexT("flex::CompositionName", 1, 2),
  FlexT("flex::MidiClipName", 1, 3), FlexT("flex::CopyrightNotice", 1, 4), FlexT("flex::ComposerName", 1, 5),
  FlexT("flex::LyricistName", 1, 6), FlexT("flex::ArrangerName", 1, 7), FlexT("flex::PublisherName", 1, 8),
  FlexT("flex::PrimaryPerformerName", 1, 9), FlexT("flex::AccompanyingPerformerName", 1, 10),
  FlexT("flex::RecordingDate", 1, 11), FlexT("flex::RecordingLocation", 1, 12),
  FlexT("flex::UnknownPerformanceText", 2, 0), FlexT("flex::Lyrics", 2, 1), FlexT("flex::LyricsLanguage", 2, 2),
  FlexT("flex::Ruby", 2, 3), FlexT("flex::RubyLanguage", 2, 4) >>

Jr == <<U("protocol", 16, 8), B1("receive_jr_timestamps", 30), B1("send_jr_timestamps", 31)>>
StrTypes == <<
  StrF("stream::EndpointDiscovery", 0, 16, <<U("ump_version_major", 16, 8), U("ump_version_minor", 24, 8), B1("request_endpoint_info", 63),
       B1("request_device_identity", 62), B1("request_endpoint_name", 61), B1("request_product_instance_id", 60),
       B1("request_stream_configuration", 59)>>),
  StrF("stream::EndpointInfo", 1, 16, <<U("ump_version_major", 16, 8), U("ump_version_minor", 24, 8), B1("static_function_blocks", 32),
       U("number_of_function_blocks", 33, 7), B1("supports_midi2_protocol", 54), B1("supports_midi1_protocol", 55),
       B1("supports_receiving_jr_timestamps", 62), B1("supports_sending_jr_timestamps", 63)>>),
  StrF("stream::DeviceIdentity", 2, 16, <<S7("device_manufacturer", 40, 3), L14("device_family", 64), L14("device_family_model_number", 80),
       S7("software_version", 96, 4)>>),
  StrT("stream::EndpointName", 3, <<>>),
  StrT("stream::ProductInstanceId", 4, <<>>),
  StrF("stream::StreamConfigurationRequest", 5, 16, Jr),
  StrF("stream::StreamConfigurationNotification", 6, 16, Jr),
  (* deviation of the library, pinned by its own tests: this message is one word long (finding FBD) *)
  StrF("stream::FunctionBlockDiscovery", 16, 4, <<U("function_block_number", 16, 8), B1("requesting_function_block_info", 31),
       B1("requesting_function_block_name", 30)>>),
  StrF("stream::FunctionBlockInfo", 17, 16, <<B1("active", 16), U("function_block_number", 17, 7), F("ui_hint", "hint", 26, 2, "Undeclared"),
       F("midi1_port", "port", 28, 2, "None"), F("direction", "dir", 30, 2, "Bidirectional"), U("first_group", 36, 4),
       U("number_of_groups_spanned", 40, 8), U("midi_ci_version", 48, 8), U("max_number_of_midi_ci_streams", 56, 8)>>),
  StrT("stream::FunctionBlockName", 18, <<F("function_block", "fbn", 16, 8, 0)>>),
  StrF("stream::StartOfClip", 32, 16, <<>>),
  StrF("stream::EndOfClip", 33, 16, <<>>) >>

(* SysEx: status bits 8-11, size bits 12-15 *)
SxTypes == <<
  M("sx7::Sysex7", "sx7", "sysex", 8, 2, <<<<0, 4, 3>>>>, <<G>>),
  M("sx8::Sysex8", "sx8", "sysex", 16, 0, <<<<0, 4, 5>>>>, <<G, F("stream_id", "sid", 16, 8, 0)>>) >>

(* MIDI-CI discovery, byte form only (offsets of the octets of the whole SysEx message) *)
CiHdr(v) == <<<<0, 8, 240>>, <<8, 8, 126>>, <<16, 8, 127>>, <<24, 8, 13>>, <<32, 8, 112>>, <<40, 8, v>>,
              <<80, 8, 127>>, <<88, 8, 127>>, <<96, 8, 127>>, <<104, 8, 127>>>>
CiFields == <<F("device_id", "dev", 16, 8, <<"FunctionBlock", 0>>), L28("source", 48), F("destination", "l28", 80, 32, 268435455),
    S7("device_manufacturer", 112, 3), L14("device_family", 136), L14("model_number", 152), S7("software_version", 168, 4),
    B1("process_inquiry_supported", 203), B1("property_exchange_supported", 204), B1("profile_configuration_supported", 205),
    B1("protocol_negotiation_supported", 206), L28("max_sysex_size", 208)>>
CiTypes == <<
  M("ci::DiscoveryQuery1", "ci", "ci", 0, 31, CiHdr(1), CiFields),
  M("ci::DiscoveryQuery2", "ci", "ci", 0, 32, CiHdr(2), CiFields \o <<U("output_path_id", 241, 7)>>) >>

Types == (Cv1Types \o Cv2Types \o SysTypes \o UtilTypes \o FlexFixed \o FlexText \o StrTypes \o SxTypes \o CiTypes)

Names == {Types[i].ty : i \in DOMAIN Types}
(* TLC would evaluate these tables again at every use: they are kept in registers *)
ASSUME /\ TLCSet(901, TLCEval([t \in Names |-> TLCEval(Types[CHOOSE i \in DOMAIN Types : Types[i].ty = t])]))
       /\ TLCSet(902, TLCEval([f \in {"cv1", "cv2", "sys", "util", "flex", "stream", "sx7", "sx8", "ci"} |->
                                 TLCEval(SelectSeq(Types, LAMBDA m : m.fam = f))]))
MsgOf == TLCGet(901)
FamOf == TLCGet(902)
Aggs == {"agg:cv1", "agg:cv2", "agg:sys", "agg:util", "agg:flex", "agg:stream", "agg:Ump", "agg:Bytes"}
AggFam == [a \in Aggs |-> CASE a = "agg:cv1" -> "cv1" [] a = "agg:cv2" -> "cv2" [] a = "agg:sys" -> "sys" [] a = "agg:util" -> "util"
                            [] a = "agg:flex" -> "flex" [] a = "agg:stream" -> "stream" [] OTHER -> "any"]
(* UMP message type nibble -> family *)
TypeFam(n) == CASE n = 0 -> "util" [] n = 1 -> "sys" [] n = 2 -> "cv1" [] n = 3 -> "sx7" [] n = 4 -> "cv2" [] n = 5 -> "sx8"
                [] n = 13 -> "flex" [] n = 15 -> "stream" [] OTHER -> "none"
FamWords == [f \in {"util", "sys", "cv1", "sx7", "cv2", "sx8", "flex", "stream"} |->
             CASE f \in {"util", "sys", "cv1"} -> 1 [] f \in {"sx7", "cv2"} -> 2 [] OTHER -> 4]
=============================================================================
