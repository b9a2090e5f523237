--------------------------------- MODULE MC ---------------------------------
(* What the exhaustive models share: values of fields, ways to write down a   *)
(* behaviour as a script for the real code.                                   *)
EXTENDS Machine, Json, TLC

Forms(m) == (IF m.size > 0 THEN {"u"} ELSE {}) \union (IF m.bsize > 0 THEN {"b"} ELSE {})
(* fields with a setter (device id and destination of MIDI-CI are fixed by the constructor) *)
Settable(m, form) == {i \in DOMAIN m.fields : m.fields[i].o >= Shift(m, form) /\ m.fields[i].n # "destination" /\ ~(m.kind = "ci" /\ m.fields[i].n = "device_id")}
SetToSeqOf(names, w) == [i \in DOMAIN names |-> <<names[i], w>>]
Names2(names, lo, hi) == Concat([i \in 1..(Len(names) - 1) |-> <<<<names[i + 1], hi>>, <<names[i + 1], lo>>>>])
(* values of the type of a field, boundaries first *)
ValSeq(f) ==
    CASE f.k \in {"u", "grp", "fbn", "sid"} -> LET w == f.w IN
            IF w = 1 THEN <<1, 0>> ELSE <<Pow(w) - 1, 0, 1, Pow(w - 1), 5592405 % Pow(w), 11184810 % Pow(w)>>
      [] f.k = "b" -> <<1, 0>>
      [] f.k = "q" -> <<<<255, 255, 255, 255>>, <<0, 0, 0, 0>>, <<128, 0, 0, 1>>, <<1, 2, 4, 8>>>>
      [] f.k = "l14" -> <<16383, 0, 127, 128, 10922>>
      [] f.k = "l28" -> <<268435455, 0, 127, 128, 16383, 16384, 2097151, 2097152>>
      [] f.k = "s7" -> <<[i \in 1..f.w |-> 127], Zeros(f.w), [i \in 1..f.w |-> i], [i \in 1..f.w |-> Pow(i + 2)]>>
      [] f.k = "att" -> <<<<"ManufacturerSpecific", 65535>>, <<"None", 0>>, <<"ProfileSpecific", 1>>, <<"Pitch7_9", 256>>, <<"Pitch7_9", 0>>>>
      [] f.k = "ctl" -> Concat([i \in DOMAIN CtlPlain |-> <<<<CtlPlain[i][1], 0, 1, 2, 3, 4>>>>]) \o Concat([i \in DOMAIN CtlAlias |-> <<<<CtlAlias[i][1], 0, 255, 255, 255, 255>>>>])
                        \o [i \in 1..10 |-> <<"SoundController", i, 0, 0, 0, i>>] \o [i \in 1..5 |-> <<"EffectDepth", i, 128, 0, 0, 0>>]
      [] f.k = "bank" -> <<16383, -1, 0, 127, 128>>
      [] f.k = "och" -> <<15, -1, 0, 6, 9>>
      [] f.k = "ton" -> TonNames
      [] f.k = "csf" -> <<"DoubleFlat", "Natural", "Sharp", "Flat", "DoubleSharp">>
      [] f.k = "cty" -> <<"Suspended4th">> \o CtyNames
      [] f.k = "alt" -> <<<<"Lower", 15>>, <<"None", 0>>>> \o Names2(AltNames, 0, 10)
      [] f.k = "ksf" -> <<<<"Flats", 7>>, <<"Sharps", 7>>, <<"NonStandard", 0>>>> \o [i \in 1..7 |-> <<"Sharps", i - 1>>] \o [i \in 1..7 |-> <<"Flats", i - 1>>]
      [] f.k = "hint" -> <<"SenderReciever", "Undeclared", "Receiver", "Sender">>
      [] f.k = "port" -> <<"RestrictBandwidth", "None", "DontRestrictBandwidth">>
      [] f.k = "dir" -> <<"Bidirectional", "Input", "Output">>
      [] OTHER -> <<>>
Vals(f, k) == LET s == ValSeq(f) IN {s[i] : i \in 1..Min2(k, Len(s))}

RECURSIVE Fill(_, _, _, _, _)
(* b with every field set to its first (largest) value *)
Fill(m, form, b, S, i) == IF i > Len(m.fields) THEN b
    ELSE Fill(m, form, IF i \in S THEN Set(m, form, b, m.fields[i].n, ValSeq(m.fields[i])[1]) ELSE b, S, i + 1)
(* distinct payload octets *)
Ser(from, n) == [i \in 1..n |-> ((from + i - 1) % 126) + 1]

OpLoad(m, form, kind, b, cap) == [op |-> "load", ty |-> m.ty, form |-> form, kind |-> kind, buf |-> b, cap |-> cap, dirt |-> 255]
OpSet(f, v) == [op |-> "set", f |-> f, v |-> TLCEval(v)]
OpRead == [op |-> "read"]
OpParse(ty, form, b) == [op |-> "parse", ty |-> ty, form |-> form, buf |-> b]
Emit(h) == PrintT("BEH" \o ToJson(h))
=============================================================================
