------------------------------- MODULE Codec -------------------------------
(* What a message means: reading and writing fields, legal encodings, the    *)
(* extent of a message inside a longer buffer, fresh messages, text and      *)
(* SysEx encodings, conversions and packets.                                 *)
EXTENDS Catalogue, Utf8

(* ------------------------------------------------------- coded values ---- *)
TonNames == <<"NonStandard", "A", "B", "C", "D", "E", "F", "G">>
CtyNames == <<"ClearChord", "Major", "Major6th", "Major7th", "Major9th", "Major11th", "Major13th", "Minor", "Minor6th", "Minor7th", "Minor9th",
    "Minor11th", "Minor13th", "Dominant", "Dominant9th", "Dominant11th", "Dominant13th", "Augmented", "Augmented7th", "Diminished", "Diminished7th",
    "HalfDiminished", "MajorMinor", "Pedal", "Power", "Suspended2nd", "Suspended4th">>
AltNames == <<"None", "Add", "Subtract", "Raise", "Lower">>
AttNames == <<"None", "ManufacturerSpecific", "ProfileSpecific", "Pitch7_9">>
HintNames == <<"Undeclared", "Receiver", "Sender", "SenderReciever">>
PortNames == <<"None", "DontRestrictBandwidth", "RestrictBandwidth">>
DirNames == <<"?", "Input", "Output", "Bidirectional">>
CsfCode(v) == CASE v = "DoubleSharp" -> 2 [] v = "Sharp" -> 1 [] v = "Natural" -> 0 [] v = "Flat" -> 15 [] v = "DoubleFlat" -> 14
CsfName(c) == CASE c = 2 -> "DoubleSharp" [] c = 1 -> "Sharp" [] c = 0 -> "Natural" [] c = 15 -> "Flat" [] c = 14 -> "DoubleFlat" [] OTHER -> "?"
CodeIn(names, v) == (CHOOSE i \in 1..Len(names) : names[i] = v) - 1
NameIn(names, c) == IF c < Len(names) THEN names[c + 1] ELSE "?"
(* registered per-note controllers *)
CtlPlain == <<<<"Modulation", 1>>, <<"Breath", 2>>, <<"Pitch7_25", 3>>, <<"Volume", 7>>, <<"Balance", 8>>, <<"Pan", 10>>, <<"Expression", 11>>>>
CtlAlias == <<<<"SoundVariation", 70>>, <<"Timbre", 71>>, <<"ReleaseTime", 72>>, <<"AttackTime", 73>>, <<"Brightness", 74>>, <<"DecayTime", 75>>,
    <<"VebratoRate", 76>>, <<"VebratoDepth", 77>>, <<"VebratoDelay", 78>>, <<"Undefined", 79>>, <<"ReverbSendLevel", 91>>, <<"ChorusSendLevel", 93>>>>
CtlCode(v) == CASE v[1] = "SoundController" -> 69 + v[2] [] v[1] = "EffectDepth" -> 90 + v[2]
                [] OTHER -> LET a == CtlPlain \o CtlAlias IN a[CHOOSE i \in DOMAIN a : a[i][1] = v[1]][2]
CtlOk(c) == c \in {1, 2, 3, 7, 8, 10, 11} \union 70..79 \union 91..95
CtlName(c) == CASE c \in 70..79 -> <<"SoundController", c - 69>> [] c \in 91..95 -> <<"EffectDepth", c - 90>>
                [] OTHER -> <<CtlPlain[CHOOSE i \in DOMAIN CtlPlain : CtlPlain[i][2] = c][1], 0>>
(* the value a setter's argument is read back as *)
Norm(k, v) == CASE k = "ctl" -> CtlName(CtlCode(v)) \o SubSeq(v, 3, 6)
                [] k = "ksf" -> (IF v[1] = "Flats" /\ v[2] = 0 THEN <<"Sharps", 0>> ELSE IF v[1] = "NonStandard" THEN <<"NonStandard", 0>> ELSE v)
                [] k \in {"alt", "att"} -> (IF v[1] = "None" THEN <<"None", 0>> ELSE v)
                [] k = "dev" -> (IF v[1] = "Channel" THEN v ELSE <<v[1], 0>>)
                [] OTHER -> v

Sept(b, i) == b[i] % 128
PutSept(b, i, v) == [b EXCEPT ![i] = (@ \div 128) * 128 + v]
Oct(o) == o \div 8 + 1

(* field f at bit offset o of the octets b *)
ReadAt(b, f, o) ==
    CASE f.k \in {"u", "b", "grp", "fbn", "sid"} -> GetBits(b, o, f.w)
      [] f.k = "q" -> SubSeq(b, Oct(o), Oct(o) + 3)
      [] f.k = "l14" -> Sept(b, Oct(o)) + 128 * Sept(b, Oct(o) + 1)
      [] f.k = "l28" -> Sept(b, Oct(o)) + 128 * Sept(b, Oct(o) + 1) + 16384 * Sept(b, Oct(o) + 2) + 2097152 * Sept(b, Oct(o) + 3)
      [] f.k = "s7" -> [i \in 1..f.w |-> Sept(b, Oct(o) + i - 1)]
      [] f.k = "att" -> LET t == b[Oct(o)] IN IF t = 0 THEN <<"None", 0>> ELSE <<NameIn(AttNames, t), GetBits(b, o + 24, 16)>>
      [] f.k = "ctl" -> CtlName(b[Oct(o)]) \o SubSeq(b, Oct(o) + 1, Oct(o) + 4)
      [] f.k = "bank" -> IF b[4] % 2 = 1 THEN Sept(b, Oct(o)) + 128 * Sept(b, Oct(o) + 1) ELSE -1
      [] f.k = "och" -> IF GetBits(b, o, 2) = 0 THEN GetBits(b, o + 2, 4) ELSE -1
      [] f.k = "ton" -> NameIn(TonNames, GetBits(b, o, 4))
      [] f.k = "csf" -> CsfName(GetBits(b, o, 4))
      [] f.k = "cty" -> NameIn(CtyNames, b[Oct(o)])
      [] f.k = "alt" -> LET c == b[Oct(o)] IN IF c \div 16 = 0 THEN <<"None", 0>> ELSE <<NameIn(AltNames, c \div 16), c % 16>>
      [] f.k = "ksf" -> LET c == GetBits(b, o, 4) IN IF c < 8 THEN <<"Sharps", c>> ELSE IF c = 8 THEN <<"NonStandard", 0>> ELSE <<"Flats", 16 - c>>
      [] f.k = "hint" -> NameIn(HintNames, GetBits(b, o, 2))
      [] f.k = "port" -> NameIn(PortNames, GetBits(b, o, 2))
      [] f.k = "dir" -> NameIn(DirNames, GetBits(b, o, 2))
      [] f.k = "dev" -> LET c == b[Oct(o)] IN IF c = 127 THEN <<"FunctionBlock", 0>> ELSE IF c = 126 THEN <<"Group", 0>> ELSE <<"Channel", c>>

WriteAt(b, f, o, v) ==
    CASE f.k \in {"u", "b", "grp", "fbn", "sid"} -> PutBits(b, o, f.w, v)
      [] f.k = "q" -> PutOctets(b, Oct(o), v)
      [] f.k = "l14" -> PutSept(PutSept(b, Oct(o), v % 128), Oct(o) + 1, v \div 128)
      [] f.k = "l28" -> PutSept(PutSept(PutSept(PutSept(b, Oct(o), v % 128), Oct(o) + 1, (v \div 128) % 128), Oct(o) + 2, (v \div 16384) % 128),
                                Oct(o) + 3, v \div 2097152)
      [] f.k = "s7" -> [i \in 1..Len(b) |-> IF i >= Oct(o) /\ i < Oct(o) + f.w THEN (b[i] \div 128) * 128 + v[i - Oct(o) + 1] ELSE b[i]]
      [] f.k = "att" -> IF v[1] = "None" THEN PutBits(b, o, 8, 0) ELSE PutBits(PutBits(b, o, 8, CodeIn(AttNames, v[1])), o + 24, 16, v[2])
      [] f.k = "ctl" -> PutOctets(PutBits(b, o, 8, CtlCode(v)), Oct(o) + 1, SubSeq(v, 3, 6))
      [] f.k = "bank" -> IF v = -1 THEN PutBits(PutBits(b, 31, 1, 0), o, 16, 0)
                         ELSE PutBits(PutBits(b, 31, 1, 1), o, 16, (v % 128) * 256 + v \div 128)
      [] f.k = "och" -> IF v = -1 THEN PutBits(b, o, 6, 16) ELSE PutBits(b, o, 6, v)
      [] f.k = "ton" -> PutBits(b, o, 4, CodeIn(TonNames, v))
      [] f.k = "csf" -> PutBits(b, o, 4, CsfCode(v))
      [] f.k = "cty" -> PutBits(b, o, 8, CodeIn(CtyNames, v))
      [] f.k = "alt" -> PutBits(b, o, 8, IF v[1] = "None" THEN 0 ELSE CodeIn(AltNames, v[1]) * 16 + v[2])
      [] f.k = "ksf" -> PutBits(b, o, 4, CASE v[1] = "Sharps" -> v[2] [] v[1] = "NonStandard" -> 8 [] OTHER -> (16 - v[2]) % 16)
      [] f.k = "hint" -> PutBits(b, o, 2, CodeIn(HintNames, v))
      [] f.k = "port" -> PutBits(b, o, 2, CodeIn(PortNames, v))
      [] f.k = "dir" -> PutBits(b, o, 2, CodeIn(DirNames, v))
      [] f.k = "dev" -> PutBits(b, o, 8, CASE v[1] = "FunctionBlock" -> 127 [] v[1] = "Group" -> 126 [] OTHER -> v[2])

(* the bits of b hold a legal code of f *)
CodeOk(b, f, o) ==
    CASE f.k = "att" -> b[Oct(o)] < 4
      [] f.k = "ctl" -> CtlOk(b[Oct(o)])
      [] f.k = "ton" -> GetBits(b, o, 4) < 8
      [] f.k = "csf" -> CsfName(GetBits(b, o, 4)) # "?"
      [] f.k = "cty" -> b[Oct(o)] < 27
      [] f.k = "alt" -> b[Oct(o)] \div 16 < 5
      [] f.k = "port" -> GetBits(b, o, 2) # 3
      [] f.k = "dir" -> GetBits(b, o, 2) # 0
      [] OTHER -> TRUE

(* ---------------------------------------------------- extent of a message *)
Shift(m, form) == IF form = "b" /\ m.kind # "ci" THEN 8 ELSE 0
PSize(m, form) == IF form = "b" THEN m.bsize ELSE IF m.kind \in {"text"} THEN 16 ELSE m.size
Form(m, p) == IF m.kind = "text" THEN (IF m.fam = "flex" THEN GetBits(p, 8, 2) ELSE GetBits(p, 4, 2)) ELSE p[2] \div 16   \* format / status
Multi(m, form) == form = "u" /\ m.kind \in {"text", "sysex"}
EndsAt(ss, i) == i <= Len(ss)
RECURSIVE FirstIn(_, _, _)
(* the first of the places i .. j where ss holds TRUE, or 0 *)
FirstIn(ss, i, j) == IF i > j THEN 0 ELSE IF i = j THEN (IF ss[i] THEN i ELSE 0)
                     ELSE LET mid == (i + j) \div 2
                              l == FirstIn(ss, i, mid) IN IF l # 0 THEN l ELSE FirstIn(ss, mid + 1, j)
FirstEnd(m, ps) == FirstIn([i \in DOMAIN ps |-> Form(m, ps[i]) \in {0, 3}], 1, Len(ps))
FirstF7(b) == FirstIn([i \in DOMAIN b |-> b[i] = 247], 1, Len(b))
(* octets of the message that starts b; 0 if there is no whole message *)
MsgLen(m, form, b) ==
    IF Multi(m, form) THEN FirstEnd(m, Packets(b, PSize(m, form))) * PSize(m, form)
    ELSE IF m.kind = "sysex" THEN FirstF7(b)
    ELSE IF Len(b) >= PSize(m, form) THEN PSize(m, form) ELSE 0
Data(m, form, b) == Take(b, MsgLen(m, form, b))

(* ------------------------------------------------------------- acceptance *)
HdrBits(m, form, p) == \A i \in DOMAIN m.hdr : LET h == m.hdr[i] IN
                         h[1] >= Shift(m, form) => GetBits(p, h[1] - Shift(m, form), h[2]) = h[3]
TextOff(m) == IF m.fam = "flex" THEN 4 ELSE IF m.ty = "stream::FunctionBlockName" THEN 3 ELSE 2
TextOcts(m, d) == LET ps == Packets(d, 16) IN Concat([i \in DOMAIN ps |-> Drop(ps[i], TextOff(m))])
TextOf(m, d) == Without(TextOcts(m, d), 0)
SxHead(m) == IF m.fam = "sx7" THEN 2 ELSE 3
SxCap(m) == IF m.fam = "sx7" THEN 6 ELSE 13
SxSizeOk(m, p) == IF m.fam = "sx7" THEN p[2] % 16 <= 6 ELSE p[2] % 16 \in 1..14
SxPart(m, p) == IF m.fam = "sx7" THEN [i \in 1..(p[2] % 16) |-> p[i + 2] % 128]      \* the top bit of a SysEx7 octet is reserved
                ELSE [i \in 1..((p[2] % 16) - 1) |-> p[i + 3]]
Payload(m, form, d) == IF form = "b" THEN SubSeq(d, 2, Len(d) - 1)
                       ELSE LET ps == Packets(d, PSize(m, form)) IN Concat([i \in DOMAIN ps |-> SxPart(m, ps[i])])
StatusSeqOk(m, ps) == /\ ps # <<>>
                      /\ IF Len(ps) = 1 THEN Form(m, ps[1]) = 0
                         ELSE Form(m, ps[1]) = 1 /\ Form(m, ps[Len(ps)]) = 3 /\ \A i \in 2..(Len(ps) - 1) : Form(m, ps[i]) = 2
CommonFields(m) == {m.fields[i] : i \in {j \in DOMAIN m.fields : m.fields[j].k \in {"grp", "sid", "fbn"}}}
Consistent(m, ps) == \A f \in CommonFields(m) : \A i \in DOMAIN ps : GetBits(ps[i], f.o, f.w) = GetBits(ps[1], f.o, f.w)
FieldsOk(m, form, d) == \A i \in DOMAIN m.fields : LET f == m.fields[i] IN f.o >= Shift(m, form) => CodeOk(d, f, f.o - Shift(m, form))
HasField(m, k) == \E i \in DOMAIN m.fields : m.fields[i].k = k

(* d, exactly one message long, is a legal encoding of a message of type m *)
Legal(m, form, d) ==
    CASE m.kind \in {"fixed", "fixnc"} -> HdrBits(m, form, d) /\ FieldsOk(m, form, d) /\ (m.kind = "fixnc" => GetBits(d, 10, 2) # 0)
      [] m.kind = "ci" -> /\ HdrBits(m, form, d) /\ d[Len(d)] = 247 /\ \A i \in 2..(Len(d) - 1) : d[i] < 128
      [] m.kind = "sysex" /\ form = "b" -> d[1] = 240 /\ d[Len(d)] = 247 /\ \A i \in 2..(Len(d) - 1) : d[i] < 128
      [] OTHER -> LET ps == Packets(d, PSize(m, form)) IN
                  /\ StatusSeqOk(m, ps) /\ \A i \in DOMAIN ps : HdrBits(m, form, ps[i]) /\ (m.kind = "sysex" => SxSizeOk(m, ps[i]))
                  /\ Consistent(m, ps)
                  /\ (m.kind = "text" => Utf8(TextOf(m, d)))
(* address and channel must agree too, but a reader may be lenient about it *)
Lenient(m, form, d) == /\ m.kind = "text" /\ HasField(m, "och")
                       /\ LET ps == Packets(d, 16) IN \E i \in DOMAIN ps : GetBits(ps[i], 10, 6) # GetBits(ps[1], 10, 6)
(* formats of 4-word messages say whether more packets follow, so what follows a whole message may be refused *)
StrictTail(m, form) == m.kind \in {"text", "sysex", "ci"} \/ m.fam \in {"flex", "stream"}
Accept(m, form, b) ==
    LET n == MsgLen(m, form, b) IN
    IF n = 0 THEN "no"
    ELSE LET d == Take(b, n) IN
         IF ~Legal(m, form, d) THEN "no"
         ELSE IF Lenient(m, form, d) THEN "any"
         ELSE IF n < Len(b) /\ StrictTail(m, form) THEN "any" ELSE "yes"

(* the member of an aggregate that the header of b designates: "none" or a type name *)
TypeOf(form, b) == IF form = "u" THEN TypeFam(b[1] \div 16)
                   ELSE IF b[1] = 240 THEN "sx7" ELSE IF b[1] \in 128..239 THEN "cv1" ELSE IF b[1] > 240 THEN "sys" ELSE "none"
Designate(agg, form, b) ==
    IF Len(b) = 0 \/ (form = "u" /\ Len(b) < 4) THEN "none"
    ELSE LET t == TypeOf(form, b)
             fam == IF AggFam[agg] = "any" THEN t ELSE AggFam[agg] IN
         IF t = "none" \/ t # fam THEN "none"
         ELSE LET ms == SelectSeq(FamOf[fam], LAMBDA m :
                            /\ form = "b" => m.bsize > 0
                            /\ \A i \in DOMAIN m.hdr : LET h == m.hdr[i] IN
                                  (h[1] >= Shift(m, form) /\ h[1] + h[2] - Shift(m, form) <= 8 * Len(b) /\ ~(m.fam \in {"flex", "stream"} /\ h[2] = 2))
                                    => GetBits(b, h[1] - Shift(m, form), h[2]) = h[3]) IN
              IF ms = <<>> THEN "none" ELSE ms[1].ty
AcceptAny(ty, form, b) == IF ty \in Aggs THEN (LET t == Designate(ty, form, b) IN IF t = "none" THEN "no" ELSE Accept(MsgOf[t], form, b))
                          ELSE Accept(MsgOf[ty], form, b)

(* ------------------------------------------------------------------ fields *)
FieldNamed(m, n) == m.fields[CHOOSE i \in DOMAIN m.fields : m.fields[i].n = n]
HasNamed(m, form, n) == \E i \in DOMAIN m.fields : m.fields[i].n = n /\ m.fields[i].o >= Shift(m, form)
Get(m, form, d, n) == CASE n = "flex_bank" -> d[3] [] n = "flex_status" -> d[4]
                        [] OTHER -> LET f == FieldNamed(m, n) IN ReadAt(d, f, f.o - Shift(m, form))
(* b may continue after the message; only the message is written *)
Set(m, form, b, n, v) ==
    LET f == FieldNamed(m, n)
        o == f.o - Shift(m, form) IN
    IF f.k \in {"grp", "och", "fbn", "sid"} /\ Multi(m, form)
    THEN LET k == MsgLen(m, form, b)
             ps == Packets(Take(b, k), PSize(m, form)) IN
         Concat([i \in DOMAIN ps |-> WriteAt(ps[i], f, o, v)]) \o Drop(b, k)
    ELSE WriteAt(b, f, o, v)

RECURSIVE WithHdr(_, _, _, _)
WithHdr(m, form, b, i) == IF i > Len(m.hdr) THEN b
    ELSE LET h == m.hdr[i] IN WithHdr(m, form, IF h[1] >= Shift(m, form) THEN PutBits(b, h[1] - Shift(m, form), h[2], h[3]) ELSE b, i + 1)
RECURSIVE WithFields(_, _, _, _)
WithFields(m, form, b, i) == IF i > Len(m.fields) THEN b
    ELSE LET f == m.fields[i] IN
         WithFields(m, form, IF f.o >= Shift(m, form) THEN WriteAt(b, f, f.o - Shift(m, form), f.d) ELSE b, i + 1)
(* a fresh message *)
MinLen(m, form) == IF form = "b" THEN m.bsize ELSE m.size
New(m, form) ==
    IF m.kind = "sysex" /\ form = "b" THEN <<240, 247>>
    ELSE LET z == WithFields(m, form, WithHdr(m, form, Zeros(MinLen(m, form)), 1), 1) IN
         CASE m.kind = "ci" -> [z EXCEPT ![Len(z)] = 247]
           [] m.kind = "fixnc" -> PutBits(z, 10, 6, 16)
           [] m.kind = "sysex" /\ m.fam = "sx8" -> [z EXCEPT ![2] = 1]
           [] OTHER -> z

(* --------------------------------------------------------------- encodings *)
StatusFor(i, n) == IF n = 1 THEN 0 ELSE IF i = 1 THEN 1 ELSE IF i = n THEN 3 ELSE 2
Pad(s, n) == s \o Zeros(n - Len(s))
Part(s, i, n) == SubSeq(s, (i - 1) * n + 1, Min2(i * n, Len(s)))
SxPackets(m, len) == Max2(1, CeilDiv(len, SxCap(m)))
(* the canonical encoding of a SysEx message *)
EncSx(m, form, group, sid, pl) ==
    IF form = "b" THEN <<240>> \o pl \o <<247>>
    ELSE LET n == SxPackets(m, Len(pl)) IN
         Concat([i \in 1..n |-> LET c == Part(pl, i, SxCap(m)) IN
            IF m.fam = "sx7" THEN <<48 + group, StatusFor(i, n) * 16 + Len(c)>> \o Pad(c, 6)
            ELSE <<80 + group, StatusFor(i, n) * 16 + Len(c) + 1, sid>> \o Pad(c, 13)])
EncSxLen(m, form, len) == IF form = "b" THEN len + 2 ELSE SxPackets(m, len) * m.size
SxGroup(m, form, d) == IF form = "b" THEN 0 ELSE d[1] % 16
SxSid(m, d) == IF m.fam = "sx8" THEN d[3] ELSE 0
(* the canonical encoding of a text message; h = first packet of any message of that type (header values) *)
TextCap(m) == 16 - TextOff(m)
TextPackets(m, len) == Max2(1, CeilDiv(len, TextCap(m)))
EncText(m, h, tx) ==
    LET n == TextPackets(m, Len(tx)) IN
    Concat([i \in 1..n |->
        LET hd == Take(h, TextOff(m))
            st == IF m.fam = "flex" THEN PutBits(hd, 8, 2, StatusFor(i, n)) ELSE PutBits(hd, 4, 2, StatusFor(i, n)) IN
        st \o Pad(Part(tx, i, TextCap(m)), TextCap(m))])

(* --------------------------------------------------- list model of payload *)
Splice(l, a, b, ins) == SubSeq(l, 1, a) \o ins \o SubSeq(l, b + 1, Len(l))   \* replaces the items a..b-1 (counted from 0)
RECURSIVE SumIn(_, _, _), Locate(_, _, _, _)
SumIn(n, i, j) == IF i > j THEN 0 ELSE IF i = j THEN n[i] ELSE LET mid == (i + j) \div 2 IN SumIn(n, i, mid) + SumIn(n, mid + 1, j)
(* the place of item k (from 0) of lists of n[i], ..., n[j] items: <<list, place in it>> *)
Locate(n, i, j, k) == IF i = j THEN <<i, k>>
                      ELSE LET mid == (i + j) \div 2
                               left == SumIn(n, i, mid) IN IF k < left THEN Locate(n, i, mid, k) ELSE Locate(n, mid + 1, j, k - left)
SetByte(m, form, b, k, v) ==      \* payload byte k (from 0) of the message that starts b
    LET n == MsgLen(m, form, b) IN
    IF form = "b" THEN [b EXCEPT ![k + 2] = v]
    ELSE LET ps == Packets(Take(b, n), PSize(m, form))
             at == Locate([i \in DOMAIN ps |-> Len(SxPart(m, ps[i]))], 1, Len(ps), k) IN
         [b EXCEPT ![(at[1] - 1) * PSize(m, form) + SxHead(m) + at[2] + 1] = v]

(* the packets a message is made of; a message shorter than a packet of its family fills it with zeros *)
PacketsOf(m, form, d) == IF form = "u" /\ m.kind \notin {"text", "sysex"} /\ Len(d) < 4 * FamWords[m.fam] THEN <<Pad(d, 4 * FamWords[m.fam])>>
                         ELSE Packets(d, PSize(m, form))

(* -------------------------------------------------------------- conversion *)
(* the other form of d (one message), group 0 *)
Convert(m, form, d) ==
    IF m.kind = "sysex" THEN (LET f2 == IF form = "u" THEN "b" ELSE "u" IN EncSx(m, f2, 0, 0, Payload(m, form, d)))
    ELSE IF form = "b" THEN <<(IF m.fam = "cv1" THEN 32 ELSE 16)>> \o Pad(d, 3)
    ELSE SubSeq(d, 2, 1 + m.bsize)

(* ----------------------------------------------------------------- packets *)
(* Packet::try_from of family fam on b *)
PktFam(fam, b) == IF fam = "any" THEN (IF Len(b) < 4 THEN "none" ELSE TypeFam(b[1] \div 16)) ELSE fam
(* the end of a SysEx8 message that was cut short: an End packet of zeros *)
Unexpected(w) == w[2] \div 16 = 3 /\ w[2] % 16 \in {1, 15} /\ \A i \in 4..16 : w[i] = 0
PktAccept(fam, b) ==
    IF Len(b) < 4 THEN "no"
    ELSE LET t == TypeFam(b[1] \div 16)
             f == PktFam(fam, b) IN
         IF f = "none" \/ t # f THEN "no"
         ELSE IF f = "sx7" THEN (IF Len(b) >= 8 /\ b[2] % 16 <= 6 /\ b[2] \div 16 <= 3 THEN "yes" ELSE "no")
         ELSE IF f = "sx8" THEN (IF Len(b) < 16 \/ b[2] \div 16 > 3 THEN "no"
                                 ELSE IF b[2] % 16 \in 1..14 THEN "yes"
                                 ELSE IF b[2] % 16 = 15 /\ Unexpected(Take(b, 16)) THEN "yes" ELSE "no")
         ELSE IF Len(b) >= 4 * FamWords[f] THEN "yes" ELSE "any"
StNames == <<"Complete", "Start", "Continue", "End">>
PktGet(f, w, n) ==
    CASE n = "group" -> w[1] % 16
      [] n = "channel" -> w[2] % 16
      [] n = "stream_id" -> w[3]
      [] n = "format" -> StNames[(IF f = "flex" THEN GetBits(w, 8, 2) ELSE GetBits(w, 4, 2)) + 1]
      [] n = "status" -> IF f = "sx8" /\ Unexpected(w) THEN (IF w[2] % 16 = 15 THEN "UnexpectedEnd(Invalid)" ELSE "UnexpectedEnd(Valid)")
                         ELSE StNames[(w[2] \div 16) + 1]
      [] n = "payload" -> IF f = "sx7" THEN [i \in 1..(w[2] % 16) |-> w[i + 2] % 128]
                          ELSE IF w[2] % 16 \in 1..14 THEN SubSeq(w, 4, 2 + (w[2] % 16)) ELSE <<>>
PktSet(w, n, v) == IF n = "group" THEN PutBits(w, 4, 4, v) ELSE PutBits(w, 12, 4, v)
=============================================================================
