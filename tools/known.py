"""Writes known_findings.json (run by hand, never by a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C13", "d355e79", "Sysex8::set_stream_id wrote octet 1 of the packets after reading it from octet 2"),
 ("C13", "a40a1c8", "Sysex8 packets added by a payload edit had stream id 0"),
 ("C08", "2b8ba76", "Sysex7 with a partial middle packet was taken for compact, edits then addressed the wrong bytes"),
 ("C10", "e45680a", "shrinking a SysEx payload to one packet left stale bytes after it"),
 ("C08", "e1dcd5e", "growing a Sysex7 bytes message left stale 0xF7 / data bytes inside of it"),
 ("C08", "f353678", "splicing with an underestimating iterator lost the tail when a later resize failed"),
 ("C08", "4e8f7d0", "set_byte and splices out of range corrupted the message instead of panicking"),
 ("C11", "fc21015", "nth/len/size_hint of the SysEx payload iterators skipped across packets wrongly"),
 ("C17", "a229caf", "nth/len of the packet payload iterators were off by one"),
 ("C17", "f0a6655", "sysex8::Packet accepted 0 and 15 bytes and its payload iterator then panicked"),
 ("C02", "764a0d9", "Sysex7::try_from accepted payload bytes >= 0x80 in byte form"),
 ("C02", "e002834", "multi packet messages whose last packet is cut off were accepted as complete"),
 ("C02", "bc88466", "sysex packet sizes were validated in words after the message"),
 ("C12", "219c2e0", "flex data text dropped the last byte of a full packet and read past the end of the message"),
 ("C06", "a6aaf09", "flex data bank/status were validated in words after the message"),
 ("C13", "4999a04", "flex data set_optional_channel wrote the first packet only"),
 ("C04", "9ae35d9", "flex data set_group wrote words after the message"),
 ("C12", "b3f304c", "writing flex data text cleared words after the message"),
 ("C02", "0672657", "flex data metadata statuses 0xA..0xC were dispatched at 0x10..0x12"),
 ("C20", "346f855", "SharpsFlats::Flats(0) panicked when written"),
 ("C12", "153f99f", "UMP stream text read past the end of the message"),
 ("C02", "ffec011", "a one word slice of any stream status was accepted as function block discovery"),
 ("C12", "b24c2f1", "UMP stream text, status and function block were written past the end of the message"),
 ("C13", "ee26401", "packets added to a function block name had function block 0"),
 ("C04", "96a6cd6", "sysex group and stream id were written to words after the message"),
 ("C20", "7b297e5", "Controller::ChorusSendLevel was written as controller 91, EffectDepth 5 panicked"),
 ("C06", "dd47173", "TimeCode bytes messages were three bytes long"),
 ("C03", "25b364a", "SongPositionPointer bytes messages were two bytes long, reading the position panicked"),
 ("C06", "238b342", "TuneRequest bytes messages were two bytes long"),
 ("C03", "8363985", "per note management detach and reset were swapped"),
 ("C03", "f44c7a6", "function block discovery info and name request bits were swapped"),
 ("C18", "4d7c9db", "MIDI-CI device id 0x0F was rejected"),
 ("C08", "8c468f9", "words after a SysEx message could make an edit of it panic"),
 ("C10", "a684f80", "Sysex7 payload writes kept the high bit of dirty buffers"),
 ("C08", "baf157f", "a SysEx edit overflowed for iterators with a huge upper size hint"),
 ("C01", "1289396", "MIDI-CI slices with an early 0xF7 were accepted and their getters panicked"),
 ("C22", "680a752", "text that is not UTF-8 was accepted by builds without std"),
 ("C09", "6fa1e8f", "endless data given to a fallible SysEx edit panicked with an arithmetic overflow instead of overflowing the buffer"),
 ("C09", "a8dd6e0", "an edit that fits a capacity limited buffer failed when the size estimate was too large"),
]
FINDINGS = [dict(property="C07", id="fbd-one-word",
    what="FunctionBlockDiscovery messages are one word long (MIDI 2.0: four), so packets() of one yields a four word packet that is not its data(); pinned by the existing tests",
    match=dict(labels=["fbdsize"]))]
if __name__ == "__main__":
    json.dump(dict(findings=FINDINGS, fixed=["fixed: property=%s %s %s" % f for f in FIXED]), open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
