"""Names of the message types and their fields (no bit layout: that lives in spec/Catalogue.tla).
Each message: (family, rust path below midi2::, type name, forms, kind, [fields], min units per form)
field: (name, flags)  flags: 'w' writable."""
G = ["group"]; GC = ["group", "channel"]
T = []
def t(fam, mod, name, forms, kind, fields, minu, minb=0):
    T.append(dict(fam=fam, mod=mod, name=name, ty=fam + "::" + name, forms=forms, kind=kind, fields=fields, minu=minu, minb=minb))

for n, f, b in [("NoteOff", ["note_number", "velocity"], 3), ("NoteOn", ["note_number", "velocity"], 3),
             ("KeyPressure", ["note_number", "pressure"], 3), ("ControlChange", ["control", "control_data"], 3),
             ("ProgramChange", ["program"], 2), ("ChannelPressure", ["pressure"], 2), ("PitchBend", ["bend"], 3)]:
    t("cv1", "channel_voice1", n, "ub", "fixed", GC + f, 1, b)
for n, f in [("RegisteredPerNoteController", ["note_number", "controller"]),
             ("AssignablePerNoteController", ["note_number", "index", "controller_data"]),
             ("RegisteredController", ["bank", "index", "controller_data"]),
             ("AssignableController", ["bank", "index", "controller_data"]),
             ("RelativeRegisteredController", ["bank", "index", "controller_data"]),
             ("RelativeAssignableController", ["bank", "index", "controller_data"]),
             ("PerNotePitchBend", ["note_number", "pitch_bend_data"]),
             ("NoteOff", ["note_number", "velocity", "attribute"]),
             ("NoteOn", ["note_number", "velocity", "attribute"]),
             ("KeyPressure", ["note_number", "key_pressure_data"]),
             ("ControlChange", ["control", "control_change_data"]),
             ("ProgramChange", ["program", "bank"]),
             ("ChannelPressure", ["channel_pressure_data"]),
             ("ChannelPitchBend", ["pitch_bend_data"]),
             ("PerNoteManagement", ["note_number", "detach", "reset"])]:
    t("cv2", "channel_voice2", n, "u", "fixed", GC + f, 2)
for n, f, b in [("TuneRequest", [], 1), ("TimingClock", [], 1), ("Start", [], 1), ("Continue", [], 1), ("Stop", [], 1),
                ("ActiveSensing", [], 1), ("Reset", [], 1), ("TimeCode", ["time_code"], 2), ("SongSelect", ["song"], 2),
                ("SongPositionPointer", ["position"], 3)]:
    t("sys", "system_common", n, "ub", "fixed", G + f, 1, b)
for n, f in [("NoOp", []), ("Clock", ["time_data"]), ("Timestamp", ["time_data"]), ("DeltaClockstampTpq", ["time_data"]),
             ("DeltaClockstamp", ["time_data"])]:
    t("util", "utility", n, "u", "fixed", f, 1)
for n, f in [("SetTempo", ["number_of_10_nanosecond_units_per_quarter_note"]),
             ("SetTimeSignature", ["numerator", "denominator", "number_of_32nd_notes"]),
             ("SetMetronome", ["number_of_clocks_per_primary_click", "bar_accent1", "bar_accent2", "bar_accent3",
                               "number_of_subdivision_clicks1", "number_of_subdivision_clicks2"]),
             ("SetKeySignature", ["optional_channel", "tonic", "sharps_flats"]),
             ("SetChordName", ["optional_channel", "tonic_sharps_flats", "tonic", "chord_type", "chord_alteration1", "chord_alteration2",
                               "chord_alteration3", "chord_alteration4", "bass_sharps_flats", "bass_note", "bass_chord_type",
                               "bass_alteration1", "bass_alteration2"])]:
    t("flex", "flex_data", n, "u", "fixed", G + f, 4)
for n in ["UnknownMetadataText", "ProjectName", "CompositionName", "MidiClipName", "CopyrightNotice", "ComposerName", "LyricistName",
          "ArrangerName", "PublisherName", "PrimaryPerformerName", "AccompanyingPerformerName", "RecordingDate", "RecordingLocation",
          "UnknownPerformanceText", "Lyrics", "LyricsLanguage", "Ruby", "RubyLanguage"]:
    t("flex", "flex_data", n, "u", "text", G + ["optional_channel"], 4)
for n, f in [("EndpointDiscovery", ["ump_version_major", "ump_version_minor", "request_endpoint_info", "request_device_identity",
                                    "request_endpoint_name", "request_product_instance_id", "request_stream_configuration"]),
             ("EndpointInfo", ["ump_version_major", "ump_version_minor", "static_function_blocks", "number_of_function_blocks",
                               "supports_midi2_protocol", "supports_midi1_protocol", "supports_receiving_jr_timestamps",
                               "supports_sending_jr_timestamps"]),
             ("DeviceIdentity", ["device_manufacturer", "device_family", "device_family_model_number", "software_version"]),
             ("StreamConfigurationRequest", ["protocol", "receive_jr_timestamps", "send_jr_timestamps"]),
             ("StreamConfigurationNotification", ["protocol", "receive_jr_timestamps", "send_jr_timestamps"]),
             ("FunctionBlockDiscovery", ["function_block_number", "requesting_function_block_info", "requesting_function_block_name"]),
             ("FunctionBlockInfo", ["active", "function_block_number", "first_group", "number_of_groups_spanned", "midi_ci_version",
                                    "max_number_of_midi_ci_streams", "ui_hint", "midi1_port", "direction"]),
             ("StartOfClip", []), ("EndOfClip", [])]:
    t("stream", "ump_stream", n, "u", "fixed", f, 4)
for n, f in [("EndpointName", []), ("ProductInstanceId", []), ("FunctionBlockName", ["function_block"])]:
    t("stream", "ump_stream", n, "u", "text", f, 4)
t("sx7", "sysex7", "Sysex7", "ub", "sysex", G, 2, 2)
t("sx8", "sysex8", "Sysex8", "u", "sysex", G + ["stream_id"], 4)
CI = ["device_id", "source", "destination", "device_manufacturer", "device_family", "model_number", "software_version",
      "process_inquiry_supported", "property_exchange_supported", "profile_configuration_supported",
      "protocol_negotiation_supported", "max_sysex_size"]
t("ci", "ci", "DiscoveryQuery1", "b", "ci", CI, 0, 31)
t("ci", "ci", "DiscoveryQuery2", "b", "ci", CI + ["output_path_id"], 0, 32)
TEXTFN = {"ComposerName": "name", "EndpointName": "name", "ProductInstanceId": "id", "FunctionBlockName": "name"}
if __name__ == "__main__":
    print(len(T)); print([x["ty"] for x in T])
