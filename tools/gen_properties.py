#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
GM = "midi2_proc/src/generate_message.rs"
S = "midi2/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe, hook_needed=hook)))

p("C01", "Parsing any slice is total and accepted messages are always readable",
  "For every message type, aggregate (UmpMessage, BytesMessage and each sub-enum), Packet type and CI message, try_from on any slice of words or bytes returns Ok or Err and never panics. Every accepted value can then be read in full - data(), size, packets(), every getter, payload/text iterators to exhaustion, bank()/status() - without panicking.",
  ["inputs"], "every slice content and length, for every try_from in the crate and every read-only accessor",
  "The unit tests parse a few dozen well-formed buffers; a panic needs a particular truncation, status sequence or out-of-range byte that none of them contains.",
  [GM, S+"detail/helpers.rs", S+"message.rs", S+"packet.rs", S+"sysex7.rs", S+"sysex8.rs", S+"flex_data.rs", S+"ump_stream.rs", S+"ci/discovery.rs"],
  [("try_from", GM+": try_from_slice_impl"), ("validate_sysex_group_statuses", S+"detail/helpers.rs"), ("dispatch", S+"message.rs")],
  ["result of try_from", "panics of getters, data(), packets(), iterators"])

p("C02", "A slice is accepted exactly when it encodes a message of that type",
  "try_from of a message type succeeds exactly when the slice holds at least one whole message with the type, status (bank, form, size, group/stream consistency, start-continue-end structure, UTF-8 text, legal enum codes) that the MIDI 2.0 layout assigns to that type. Whether a slice that goes on after one whole flex data, UMP stream, SysEx, text or MIDI-CI message is accepted is left open. An aggregate accepts exactly the union of its members and returns the member variant that the header designates.",
  ["inputs"], "all headers (type, status, bank, form, format) of single and multi packet slices, and all lengths, including multi-packet slices with one inconsistent packet",
  "The header space (types x statuses x banks x formats x lengths) is only sampled at a handful of points; a wrong constant, an over-lenient validator or a swapped dispatch arm elsewhere is invisible.",
  [S+"message.rs", GM, "midi2_proc/src/derives.rs", S+"flex_data.rs", S+"ump_stream.rs", S+"channel_voice1.rs", S+"channel_voice2.rs", S+"system_common.rs", S+"utility.rs", S+"sysex7.rs", S+"sysex8.rs", S+"detail/helpers.rs"],
  [("validate chain", GM+": try_from_slice_impl"), ("aggregate dispatch", "*/TryFrom impls in the aggregate modules")],
  ["Ok/Err of try_from", "variant of the aggregate"])

p("C03", "Getters decode the MIDI 2.0 bit layout",
  "For every accepted message each field getter returns the value stored in the bits that the MIDI 2.0 / MIDI 1.0 layout assigns to that field (position, width, LSB-first 14 bit values, flags, group and channel) and depends on no other bit.",
  ["inputs"], "all message types, in UMP and byte form where both exist, all bit patterns of the accepted buffer",
  "Tests read one example per field, usually with zero neighbouring bits, so a shifted, truncated or overlapping field decodes the examples correctly.",
  [S+"detail/schema.rs", S+"detail/bit_ops.rs", S+"detail/common_properties.rs", S+"detail/encode_7bit.rs", S+"channel_voice1", S+"channel_voice2", S+"system_common", S+"utility.rs", S+"flex_data", S+"ump_stream"],
  [("ReadProperty::read", S+"detail/common_properties.rs"), ("schema table", S+"detail/schema.rs")],
  ["getter return values"])

p("C04", "Setters write exactly their own field",
  "For every message, every field and every value, setting the field makes the getter return that value, writes precisely the bits the layout assigns to that field, and leaves every other bit of the buffer (other fields, reserved bits, words after the message) unchanged; setting the same value twice, or two different fields in either order, gives the same message.",
  ["programs", "inputs"], "all message types, all fields, all values, all prior buffer contents and all sequences of setter calls",
  "Tests set each field once on a fresh zeroed message, where a write that ORs without clearing, or clobbers a neighbour, cannot be seen.",
  [S+"detail/schema.rs", S+"detail/bit_ops.rs", S+"detail/common_properties.rs", GM, S+"flex_data", S+"ump_stream", S+"channel_voice2"],
  [("WriteProperty::write", S+"detail/common_properties.rs"), ("property_setter", GM)],
  ["full buffer before and after each setter", "getter after setter"])

p("C05", "Fresh messages are canonical whatever the buffer held before",
  "new, try_new, new_with_buffer and try_new_with_buffer give the same message on every buffer kind: header bits of the type, every field at its documented default and all remaining bits of data() zero, regardless of the content or excess length of the supplied buffer. The fallible constructors fail with BufferOverflow exactly when the buffer is shorter than the minimum message size, and the result re-parses as the same message.",
  ["inputs", "configurations"], "all message types, all constructors, all buffer kinds, capacities 0..min+8 and all prior contents",
  "Tests construct into zeroed, exactly sized buffers, so stale content and oversized buffers are never observed.",
  [GM, S+"buffer.rs", S+"ump_stream.rs", S+"sysex7.rs", S+"sysex8.rs", S+"ci/discovery.rs", "midi2_proc/src/generate_ci.rs"],
  [("new_with_buffer_impl / try_new_with_buffer_impl / new_array_impl", GM)],
  ["data() of the constructed message", "Err(BufferOverflow)"])

p("C06", "Reads are confined to the message, not the buffer behind it",
  "data() of an accepted or constructed message is exactly its message: the fixed size, or the packets up to and including the end packet (the bytes up to and including F7). When a buffer continues after the message, nothing behind it influences data(), packets(), any getter, text or payload.",
  ["inputs"], "all messages followed by arbitrary trailing words or bytes (whenever the slice is accepted), and all messages held in larger mutable buffers after arbitrary edits",
  "Tests use buffers exactly as long as the message, so over-reading past the end packet yields the same result.",
  [GM, S+"sysex7.rs", S+"sysex8.rs", S+"flex_data.rs", S+"flex_data/text.rs", S+"ump_stream.rs", S+"ump_stream/function_block_name.rs"],
  [("Size::size", S+"flex_data.rs: flex_data_dyn_size; "+S+"ump_stream.rs: message_size"), ("data_impl", GM)],
  ["data()", "getters with and without trailing content"])

p("C07", "packets() partitions data() into valid packets",
  "For every UMP message or aggregate, packets() yields each packet of data() once, in order, with the packet size of its message type, and their concatenation is data(); each yielded packet carries the message's type and group, is accepted by Packet::try_from and has the matching Packet variant.",
  ["inputs", "programs"], "all UMP messages, parsed or built by edits, of any packet count, on any buffer",
  "Tests list the packets of a few messages; losing, duplicating or mis-sizing packets for a specific type or length is not sampled.",
  [S+"packets.rs", S+"packet.rs", GM, "midi2_proc/src/derives.rs"],
  [("packets_impl", GM), ("PacketsIterator", S+"packets.rs")],
  ["items of packets()"])

p("C08", "SysEx payload edits behave like edits of a byte list",
  "On resizable buffers set_payload, append_payload, append_byte, insert_payload, splice_payload and set_byte of Sysex7 (UMP and bytes) and Sysex8 change payload() exactly as the same operation changes a list, for every range form, whatever correct size_hint the input iterator reports and however the payload was previously distributed over packets. payload_size() is the list's length, group and stream id are preserved, and set_byte at an index >= payload_size or insert at an index > payload_size panics as documented.",
  ["histories", "inputs"], "all sequences of edits, all payload lengths, splice ranges and inserted iterators with any lower/upper size hints, on parsed (possibly non-compact) or built messages",
  "The splice algorithm's result depends on payload length modulo packet size, range, number of inserted bytes and the hints; tests cover a few tuples and almost no histories.",
  [S+"detail/helpers.rs", S+"sysex7.rs", S+"sysex8.rs", S+"traits.rs"],
  [("try_splice_sysex_data", S+"detail/helpers.rs"), ("move_payload_tail, compact, try_resize", S+"sysex7.rs and "+S+"sysex8.rs")],
  ["payload()", "payload_size()", "group()", "stream_id()"],
  [dict(name="payload", meaning="sequence of septets/bytes held by the message", where="packet payload slots of the buffer")])

p("C09", "Fallible SysEx edits succeed exactly when the result fits",
  "On fixed capacity buffers the try_* edits of Sysex7 and Sysex8 succeed, with the same list semantics as the infallible edits, exactly when the encoded result fits the buffer. Otherwise, endless data (whose size_hint is usize::MAX) included, they return BufferOverflow, never panic, and leave a valid message with an empty payload that keeps its group and stream id and can be edited further.",
  ["histories", "inputs", "fault_sequences"], "all edit sequences, all capacities (including ones that are no multiple of a packet), all size hints (exact, too small, too large, absent, endless)",
  "Overflow behaviour depends on capacity, hint and tail position together; the tests exercise only a few overflow points with one iterator kind.",
  [S+"detail/helpers.rs", S+"sysex7.rs", S+"sysex8.rs", S+"buffer.rs"],
  [("try_splice_sysex_data failure path", S+"detail/helpers.rs"), ("try_resize", S+"sysex7.rs and "+S+"sysex8.rs")],
  ["Ok/Err of the try_ edit", "data(), payload(), group() afterwards"])

p("C10", "SysEx encodings are canonical after every edit",
  "After construction or any payload edit (set, append, insert, splice; set_byte rewrites one byte in place and keeps the layout), data() of a SysEx message is the unique canonical encoding of (group, stream id, payload): the minimal number of packets, Complete/Start/Continue/End statuses, all but the last packet full, correct size nibbles, the group and stream id in every packet and zero padding (F0 payload F7 in byte form). It therefore depends only on those values and not on the edit history or buffer kind, and it re-parses to an equal message.",
  ["histories"], "all edit histories and payload lengths on every buffer kind",
  "Tests compare a few encodings produced by single calls on fresh messages; history dependent residue (stale padding, statuses, stream ids in new packets) is not sampled.",
  [S+"sysex7.rs", S+"sysex8.rs", S+"detail/helpers.rs"],
  [("try_resize / try_resize_ump / try_resize_u8", S+"sysex7.rs and "+S+"sysex8.rs")],
  ["data() after each edit", "try_from(data())"])

p("C11", "Iterators obey the Iterator and ExactSizeIterator contracts",
  "For SysEx message payload iterators, SysEx packet payload iterators and packet iterators: any interleaving of next, nth and (where provided) len, size_hint, count agrees with the same calls on the list of remaining items, including empty packets in the middle, nth past the end, and calls after exhaustion (fused). Text byte iterators yield the non-zero text bytes in order and their size_hint always bounds the remaining count.",
  ["programs", "inputs"], "all accepted messages (including packets with zero payload bytes) and all sequences of iterator calls with all nth arguments",
  "Only a few next/nth sequences are tested; cursor state after nth across packets, at the end, and size bookkeeping depend on call histories.",
  [S+"sysex7.rs", S+"sysex8.rs", S+"sysex7/packet.rs", S+"sysex8/packet.rs", S+"packets.rs", S+"flex_data/text.rs", S+"ump_stream.rs"],
  [("PayloadIterator", S+"sysex7.rs, sysex8.rs, */packet.rs"), ("TextBytesIterator", S+"flex_data/text.rs, "+S+"ump_stream.rs"), ("PacketsIterator", S+"packets.rs")],
  ["return value of each iterator call"],
  [dict(name="cursor", meaning="items already consumed", where="packet_index / payload_index / size_cache fields")])

p("C12", "Text messages store and return exactly the given string",
  "For every flex data text message and every UMP stream name message, setting a string free of NUL makes the getter return that string and data() its unique encoding: the minimal number of packets, complete/start/continue/end form fields, header repeated in every packet, text bytes in order, zero padding. This holds after any previous contents and for any buffer; the try_ setter fails with BufferOverflow exactly when the encoding does not fit, leaving the message unchanged.",
  ["histories", "inputs"], "all strings (any UTF-8 lengths, including exact multiples of the packet capacity), all sequences of longer/shorter texts and header edits, all capacities",
  "Tests use one or two strings per message on fresh buffers; exact multiples of 12/13/14 bytes, shrinking texts and oversized buffers are not covered.",
  [S+"flex_data/text.rs", S+"flex_data.rs", S+"ump_stream.rs", S+"ump_stream/function_block_name.rs"],
  [("TextWriteStrProperty", S+"flex_data/text.rs and "+S+"ump_stream.rs"), ("grow_buffer", S+"flex_data/text.rs")],
  ["data()", "text()/name()/id()", "text_bytes()", "Err(BufferOverflow)"])

p("C13", "Multi-packet headers stay consistent under header edits",
  "Setting group, optional channel, stream id or function block on a message of any number of packets updates every packet of the message and nothing else, so the message stays acceptable, its payload or text is unchanged, and packets added by later edits carry the same header values.",
  ["histories"], "all interleavings of header edits with payload/text edits on messages of 1..n packets in buffers with trailing content",
  "Tests set the header before the payload or on single packet messages only; the order and the packet count matter.",
  [S+"sysex7.rs", S+"sysex8.rs", S+"flex_data.rs", S+"flex_data/text.rs", S+"ump_stream.rs", S+"ump_stream/function_block_name.rs"],
  [("GroupProperty::write", S+"sysex7.rs, sysex8.rs, flex_data.rs"), ("StreamIdProperty::write", S+"sysex8.rs"), ("FunctionBlockProperty::write", S+"ump_stream/function_block_name.rs"), ("OptionalChannelProperty::write", S+"flex_data.rs")],
  ["header bits of every packet after each edit"])

p("C14", "Byte stream and UMP forms of a message convert losslessly",
  "For channel voice 1, system common and SysEx7 messages, converting bytes to UMP gives the group 0 UMP message with the same fields and payload, converting UMP to bytes gives the byte message with the same fields and payload, and bytes->UMP->bytes is the identity on data(). All From/TryFrom/array variants agree, on messages and on aggregates (same variant), and the try_ forms fail with BufferOverflow exactly when the target is too small.",
  ["inputs", "configurations"], "all messages of the convertible families, all field values and payload lengths, all target buffer kinds and capacities",
  "A conversion is tested for one example per family with Vec targets; a dropped property, mismatched size or aggregate arm shows only for other members.",
  [GM, "midi2_proc/src/derives.rs", S+"sysex7.rs", S+"channel_voice1.rs", S+"system_common.rs"],
  [("convert_properties", GM), ("FromBytes/FromUmp derives", "midi2_proc/src/derives.rs"), ("try_from_other", S+"sysex7.rs")],
  ["data() of the converted message", "variant", "Err(BufferOverflow)"])

p("C15", "Rebuffering preserves the message",
  "rebuffer_from, array_rebuffer_from and try_rebuffer_from, on messages, aggregates and CI messages, return a message with the same type, data() and fields, for every pair of buffer kinds; try_rebuffer_from fails with BufferOverflow whenever the message does not fit the target, succeeds whenever the whole source buffer fits, and never truncates; array_rebuffer_from preserves the message for every array large enough for it.",
  ["inputs", "configurations"], "all messages, all supported (source, target) buffer pairs and capacities",
  "Each conversion is tested for one message type; the generated code is per type and per aggregate arm.",
  [S+"buffer.rs", GM, "midi2_proc/src/derives.rs", "midi2_proc/src/generate_ci.rs"],
  [("rebuffer_from_impl, try_rebuffer_from_impl, rebuffer_from_array_impl", GM), ("FromBuffer/TryFromBuffer", S+"buffer.rs")],
  ["data() and variant of the result", "Err(BufferOverflow)"])

p("C16", "Aggregates are transparent wrappers of the message they hold",
  "For every message wrapped (via From) in its family enum and in UmpMessage/BytesMessage, data(), packets(), group/set_group, channel/set_channel and bank/status give what the wrapped message gives, setters through the aggregate change the buffer exactly as setters on the message, and parsing the aggregate's data() returns an equal aggregate.",
  ["inputs", "programs"], "all message types, all field values, both wrapping levels, UMP and bytes",
  "Delegation code is generated per arm; tests touch a few arms only.",
  ["midi2_proc/src/derives.rs", S+"message.rs", S+"flex_data.rs", S+"channel_voice1.rs", S+"channel_voice2.rs", S+"system_common.rs", S+"utility.rs", S+"ump_stream.rs"],
  [("derive Data, Packets, Grouped, Channeled", "midi2_proc/src/derives.rs"), ("Via", GM+": ump_message_via, bytes_message_via")],
  ["data(), group(), channel() on the aggregate vs the message", "variant"])

p("C17", "Single packets are validated and decoded by their own header",
  "Packet::try_from (the aggregate and each family's Packet) accepts every slice that starts with a whole packet whose header (message type; for SysEx also the status and size nibbles) is legal for that family, rejects every slice whose header is illegal and every SysEx slice shorter than a packet, and keeps exactly the packet's words. Its accessors (group, channel, status, format, stream id, payload, unexpected-end) return what the header bits and payload bytes say, and set_group/set_channel change only those bits.",
  ["inputs"], "all first words (types, statuses, sizes, formats) and slice lengths, and arbitrary payload words",
  "Only a few packets are constructed in tests; header values outside the examples decide acceptance and decoding.",
  [S+"packet.rs", S+"sysex7/packet.rs", S+"sysex8/packet.rs", S+"flex_data/packet.rs", S+"ump_stream/packet.rs", S+"channel_voice1/packet.rs", S+"channel_voice2/packet.rs", S+"system_common/packet.rs", S+"utility/packet.rs"],
  [("Packet::try_from", S+"packet.rs"), ("status_from_data, PayloadIterator", S+"sysex7/packet.rs, "+S+"sysex8/packet.rs")],
  ["Ok/Err, contents and accessors of Packet"])

p("C18", "MIDI-CI discovery messages encode and decode their fields",
  "For both message versions and all byte buffers, a CI discovery query built by any constructor and any sequence of setters has the specified Universal SysEx layout, every getter returns the last value set, setters change only their own bytes, and parsing its data() returns an equal message. Parsing accepts exactly well-formed discovery queries of that version and rejects everything else without panicking.",
  ["inputs", "programs"], "all field values, setter sequences, versions, buffers and (malformed) byte slices",
  "Tests build one example and read it back field by field with single values.",
  [S+"ci/discovery.rs", S+"ci/common_properties.rs", S+"ci/device_id.rs", "midi2_proc/src/generate_ci.rs"],
  [("generate_ci", "midi2_proc/src/generate_ci.rs"), ("common properties", S+"ci/common_properties.rs"), ("DeviceId", S+"ci/device_id.rs")],
  ["data()", "getters", "Ok/Err of try_from"])

p("C19", "The buffer kind never changes the outcome",
  "The same sequence of operations (construct, set fields, set/edit text or payload, rebuffer, read) gives the same data(), getter values and errors on Vec, &mut Vec, arrays, mutable slices and custom buffers of sufficient capacity, whether exactly sized or oversized and whatever they contained before; a growable buffer (Vec, &mut Vec) ends up exactly as long as the message.",
  ["histories", "configurations"], "all operation sequences, all message types, all buffer kinds and sizes",
  "Tests use one buffer kind per operation; differences appear only for oversized or reused buffers.",
  [S+"buffer.rs", GM, S+"sysex7.rs", S+"sysex8.rs", S+"flex_data/text.rs", S+"ump_stream.rs"],
  [("BufferTryResize for arrays/slices", S+"buffer.rs"), ("BufferResize for Vec / &mut Vec", S+"buffer.rs")],
  ["data() and getters per buffer kind after each step"])

p("C20", "Structured values survive a round trip through a message",
  "Every structured property value (note attribute, controller, optional bank, tonic, sharps/flats, chord type, alteration, key signature, UI hint, direction, MIDI 1 port, bool flags, byte arrays, optional channel, device id) is written as the code the MIDI 2.0 specification assigns to it and read back as the same value, writer aliases map to the controller they name, and every code accepted by try_from is read without panicking.",
  ["inputs"], "all values of all structured property types and all their codes, in every message that carries them",
  "Tests check single variants; a swapped code pair or an unreachable arm for an untested variant goes unnoticed.",
  [S+"channel_voice2/controller.rs", S+"channel_voice2/attribute.rs", S+"channel_voice2/program_change.rs", S+"flex_data/tonic.rs", S+"flex_data/set_chord_name.rs", S+"flex_data/set_key_signature.rs", S+"ump_stream/function_block_info.rs", S+"ci/device_id.rs"],
  [("Controller", S+"channel_voice2/controller.rs"), ("Attribute", S+"channel_voice2/attribute.rs"), ("chord/key tables", S+"flex_data/set_chord_name.rs")],
  ["bits written by the setter", "value returned by the getter"])

p("C21", "Messages survive a shared packet stream",
  "The packets of messages of different streams (SysEx7 per group, SysEx8 per group and stream id, flex data per group, address and status, UMP stream per status) may be interleaved in any way; a receiver that reads status, format, group and stream id of every packet, collects the packets of each stream and parses what they make up as a UmpMessage obtains exactly the messages sent, in the order of each stream, with the same variant and data, and the packets' payloads add up to the message's payload. A lost packet damages no other message, and what is left of a message is reassembled or rejected as its packets say, never a panic.",
  ["histories", "schedules", "faults"], "all interleavings of all message sequences of distinct streams, all losses of packets",
  "Tests split or parse a single message at a time; nothing exercises interleaved streams, lost packets or the agreement of packet accessors with the message parser.",
  [S+"sysex7.rs", S+"sysex8.rs", S+"flex_data.rs", S+"ump_stream.rs", S+"packet.rs", S+"packets.rs"],
  [("Packet accessors", S+"sysex8/packet.rs" if os.path.exists("/repo/"+S+"sysex8/packet.rs") else S+"sysex8.rs"), ("Packets iterator", S+"packets.rs"), ("UmpMessage::try_from", S+"message.rs")],
  ["messages delivered by a receiver built on packet accessors"])

p("C22", "A build has the messages of its selected features, and they mean the same in every build",
  "In a build with any selection of the cargo features (with or without std), UmpMessage, BytesMessage and Packet accept exactly the messages and packets of the selected families, with the same variant, data and packets as the full build, and refuse those of the others; ci brings sysex7 with it; and constructing, setting, writing text and payload, and converting messages of the selected families gives the same results as in the full build. Every selection compiles.",
  ["configurations", "inputs"], "all selections of the 10 cargo features x all slices and sessions",
  "The tests are run with one selection of features; a mistake in a cfg attribute (a variant dispatched under the wrong feature, code only correct with std) does not show there.",
  ["midi2/Cargo.toml", S+"lib.rs", S+"message.rs", S+"packet.rs", S+"buffer.rs", S+"error.rs"],
  [("UmpMessage / BytesMessage dispatch", S+"message.rs"), ("Packet dispatch", S+"packet.rs"), ("module gates", S+"lib.rs")],
  ["results of parsing and sessions on builds with selected features"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
