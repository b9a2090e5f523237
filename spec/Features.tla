------------------------------ MODULE Features ------------------------------
(* The library is built with a selection of features.  A feature brings in a  *)
(* family of messages; a build knows the families of its features and no      *)
(* others, and what it knows means the same as in every other build.          *)
EXTENDS Machine

FeatureOf == [cv1 |-> "channel-voice1", cv2 |-> "channel-voice2", sys |-> "system-common", util |-> "utility", flex |-> "flex-data",
              stream |-> "ump-stream", sx7 |-> "sysex7", sx8 |-> "sysex8", ci |-> "ci"]
AllFeatures == {FeatureOf[f] : f \in DOMAIN FeatureOf} \union {"std"}
(* MIDI-CI travels in SysEx7 *)
Closed(Fs) == IF "ci" \in Fs THEN Fs \union {"sysex7"} ELSE Fs
Families(Fs) == {f \in DOMAIN FeatureOf : FeatureOf[f] \in Closed(Fs)}

AcceptIn(Fs, ty, form, b) == LET t == Designate(ty, form, b) IN
    IF t = "none" THEN "no" ELSE IF MsgOf[t].fam \notin Families(Fs) THEN "no" ELSE Accept(MsgOf[t], form, b)
(* the byte aggregate exists if any of its members does *)
BytesExist(Fs) == Families(Fs) \intersect {"cv1", "sys", "sx7"} # {}
PktAcceptIn(Fs, b) == LET f == PktFam("any", b) IN IF f = "none" \/ f \notin Families(Fs) THEN "no" ELSE PktAccept("any", b)

(* what a session that makes a message of each selected family goes through: <<type, form it starts from, step>> *)
Steps(ty, form, what) == {<<ty, form, w>> : w \in what}
LifeOf(f) ==
    CASE f = "cv1" -> Steps("cv1::NoteOn", "u", {"new", "group", "conv"}) \union Steps("cv1::NoteOn", "b", {"new", "conv"})
                      \union Steps("cv1::PitchBend", "u", {"new", "group"})
                      \union Steps("cv1::ProgramChange", "u", {"conv"}) \union Steps("cv1::ProgramChange", "b", {"new", "conv"})
      [] f = "sys" -> Steps("sys::SongPositionPointer", "u", {"new", "group", "conv"}) \union Steps("sys::SongPositionPointer", "b", {"new", "conv"})
      [] f = "cv2" -> Steps("cv2::NoteOn", "u", {"new", "group"}) \union Steps("cv2::RegisteredPerNoteController", "u", {"new", "group"})
      [] f = "util" -> Steps("util::NoOp", "u", {"new"})
      [] f = "flex" -> Steps("flex::SetTempo", "u", {"new", "group"}) \union Steps("flex::ProjectName", "u", {"new", "group"}) \union Steps("flex::Lyrics", "u", {"new", "text", "tx"})
      [] f = "stream" -> Steps("stream::EndpointInfo", "u", {"new"}) \union Steps("stream::EndpointName", "u", {"new", "text", "tx"})
                         \union Steps("stream::FunctionBlockName", "u", {"new", "text", "tx"})
      [] f = "sx7" -> Steps("sx7::Sysex7", "u", {"new", "group", "sx", "pl", "sxconv"}) \union Steps("sx7::Sysex7", "b", {"sx", "sxconv"})
      [] f = "sx8" -> Steps("sx8::Sysex8", "u", {"new", "group", "sx", "pl"})
      [] f = "ci" -> Steps("ci::DiscoveryQuery2", "b", {"new"})
(* with std there are growable buffers and strings *)
StdOf(f) == CASE f = "flex" -> Steps("flex::Lyrics", "u", {"string"})
              [] f = "stream" -> Steps("stream::EndpointName", "u", {"string"}) \union Steps("stream::FunctionBlockName", "u", {"string"})
              [] f = "sx7" -> Steps("sx7::Sysex7", "u", {"vec"}) \union Steps("sx7::Sysex7", "b", {"vec"})
              [] f = "sx8" -> Steps("sx8::Sysex8", "u", {"vec"})
              [] OTHER -> {}
Life(Fs) == UNION {LifeOf(f) \union (IF "std" \in Fs THEN StdOf(f) ELSE {}) : f \in Families(Fs)}
(* ... and what it sees there *)
Seen(ty, form, what, group, tx, pl) ==
    LET m == MsgOf[ty] IN
    CASE what = "new" -> New(m, form)
      [] what = "group" -> Set(m, form, New(m, form), "group", group)
      [] what = "conv" -> Convert(m, form, New(m, form))
      [] what = "text" -> EncText(m, New(m, form), tx)
      [] what \in {"tx", "string"} -> tx
      [] what \in {"sx", "vec"} -> EncSx(m, form, 0, 0, pl)
      [] what = "pl" -> pl
      [] what = "sxconv" -> EncSx(m, OtherForm(form), 0, 0, pl)
=============================================================================
