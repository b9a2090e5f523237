--------------------------------- MODULE Tr ---------------------------------
(* Trace validation: the events recorded from the real code are checked one   *)
(* by one against the state machine.  A disagreement is a label; the labels   *)
(* in Want are reported and validation continues from the observed buffer.    *)
EXTENDS Link, Features, Json, IOUtils, TLC

Ev == TLCGet(1)
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, st, ref
vars == <<l, st, ref>>

Dead == [live |-> FALSE]
Has(e, k) == k \in DOMAIN e
If(c, lab) == IF c THEN {lab} ELSE {}
Ok(x) == x[1] = "ok"

(* ------------------------------------------------------------ reading ---- *)
Bad(x) == x[1] = "panic"
Panics(rd) == \/ Bad(rd.d) \/ Bad(rd.pk) \/ Bad(rd.ps) \/ Bad(rd.pl) \/ Bad(rd.tb) \/ Bad(rd.tx) \/ rd.more # "ok" \/ rd.var = "panic"
              \/ \E i \in DOMAIN rd.f : rd.f[i][2] = "panic"
              \/ \E i \in DOMAIN rd.pv : rd.pv[i][4] # TRUE
GroupOfPacket(m, p) == IF m.fam \in {"util", "stream"} THEN -1 ELSE p[1] % 16
(* rd = everything read from a message of type m whose data is d and whose payload is pl *)
FieldLabels(m, form, d, rd) ==
    UNION {LET x == rd.f[i] IN IF x[2] = "ok" /\ x[3] # Get(m, form, d, x[1]) THEN {"fields", "field." \o x[1]} ELSE {} : i \in DOMAIN rd.f}
ReadLabels(m, form, d, pl, rd) ==
    If(Panics(rd), "total")
    \union If(Ok(rd.d) /\ rd.d[2] # d, "data")
    \union FieldLabels(m, form, d, rd)
    \union If(Ok(rd.pk) /\ Ok(rd.d) /\ rd.pk[2] # PacketsOf(m, form, rd.d[2]), "packets")
    \union If(Ok(rd.pk) /\ Ok(rd.d) /\ Concat(rd.pk[2]) # rd.d[2], IF m.ty = "stream::FunctionBlockDiscovery" /\ Len(rd.d[2]) = 4 THEN "fbdsize" ELSE "packets")
    \union If(Ok(rd.pk) /\ \E i \in DOMAIN rd.pv : rd.pv[i] # <<m.fam, TRUE, GroupOfPacket(m, rd.pk[2][i]), TRUE>>, "pkvalid")
    \union If(Ok(rd.ps) /\ m.kind = "sysex" /\ rd.ps[2] # Len(pl), "paysize")
    \union If(Ok(rd.pl) /\ m.kind = "sysex" /\ rd.pl[2] # pl, "payload")
    \union If(m.kind = "text" /\ Ok(rd.tx) /\ rd.tx[2] # TextOf(m, d), "text")
    \union If(m.kind = "text" /\ Ok(rd.tb) /\ rd.tb[2] # TextOf(m, d), "text")
PayloadOr(m, form, d) == IF m.kind = "sysex" THEN Payload(m, form, d) ELSE <<>>

ParseLabels(ty, form, b, e, wantVar) ==
    LET a == AcceptAny(ty, form, b)
        inner == IF ty \in Aggs THEN Designate(ty, form, b) ELSE ty IN
    If(e.res = "panic", "total")
    \union If(e.res = "ok" /\ a = "no", "accept") \union If(e.res = "err" /\ a = "yes", "accept")
    \union (IF e.res # "ok" THEN {}
            ELSE IF a = "no" THEN If(Panics(e.rd), "total")
            ELSE LET m == MsgOf[inner]
                     d == Data(m, form, b) IN
                 ReadLabels(m, form, d, PayloadOr(m, form, d), e.rd)
                 \union If(ty \in Aggs /\ e.rd.var # inner, "variant"))

(* ------------------------------------------------- state of the session -- *)
(* live, ty (as seen from outside), inner (the message type), form, kind, cap, b (buffer as far as known), d (data), pl, grp, sid (model) *)
Buf(e) == IF Ok(e.bf) THEN e.bf[2] ELSE e.d[2]
Enter(ty, inner, form, kind, cap, e, pl, grp, sid) ==
    [live |-> TRUE, ty |-> ty, inner |-> inner, form |-> form, kind |-> kind, cap |-> cap, b |-> Buf(e), d |-> e.d[2], pl |-> pl, grp |-> grp, sid |-> sid]
Sound(s) == s.live /\ Len(s.d) > 0 /\ MsgLen(MsgOf[s.inner], s.form, s.d) = Len(s.d) /\ Legal(MsgOf[s.inner], s.form, s.d)
Whole(s) == Len(s.b) >= Len(s.d) /\ Take(s.b, Len(s.d)) = s.d
M0(s) == MsgOf[s.inner]
Sx(m) == m.kind = "sysex"
Observed(s, e) == IF Ok(e.d) THEN [s EXCEPT !.d = e.d[2], !.b = Buf(e)] ELSE [s EXCEPT !.live = FALSE]

(* a growable buffer holds the message and nothing else *)
Grown(k, e) == If(Growable(k) /\ Ok(e.bf) /\ Ok(e.d) /\ Len(e.bf[2]) # Len(e.d[2]), "grown")
(* ------------------------------------------------------------- events ---- *)
Out(mis, s) == [mis |-> mis, st |-> s]

EvParse(s, e) == Out(IF e.res = "na" THEN {} ELSE ParseLabels(e.ty, e.form, e.buf, e, TRUE), s)

EvLoad(s, e) ==
    LET a == AcceptAny(e.ty, e.form, e.buf)
        inner == IF e.ty \in Aggs THEN Designate(e.ty, e.form, e.buf) ELSE e.ty IN
    IF e.res # "ok" \/ a = "no" \/ ~Ok(e.d) THEN Out(If(e.res = "panic" \/ (e.res = "err" /\ a = "yes" /\ Fits(e.kind, e.form, e.cap, Len(e.buf))), "load"), Dead)
    ELSE LET m == MsgOf[inner]
             d == Data(m, e.form, e.buf) IN
         Out(If(e.d[2] # d, "load"),
             Enter(e.ty, inner, e.form, e.kind, e.cap, e, PayloadOr(m, e.form, d), SxGroup(m, e.form, d), SxSid(m, d)))

EvNew(s, e) ==
    LET m == MsgOf[e.ty]
        ok == NewOk(m, e.form, e.kind, e.cap) IN
    IF e.res = "na" THEN Out({}, Dead)
    ELSE IF e.res # "ok" THEN Out(If(ok \/ e.res = "panic", "new.res"), Dead)
    ELSE IF ~Ok(e.d) THEN Out({"new.data"}, Dead)
    ELSE Out(If(~ok, "new.res") \union If(e.d[2] # New(m, e.form), "new.data") \union Grown(e.kind, e),
             IF ok THEN Enter(e.ty, e.ty, e.form, e.kind, e.cap, e, <<>>, 0, 0) ELSE Dead)

EvSet(s, e) ==
    LET m == M0(s) IN
    IF e.res = "na" THEN Out({}, s)
    ELSE IF e.res = "panic" THEN Out({"set.res"}, Dead)
    ELSE IF ~Sound(s) \/ ~Whole(s) THEN Out({}, Observed(s, e))
    ELSE LET x == Set(m, s.form, s.b, e.f, e.v)
             f == FieldNamed(m, e.f)
             common == f.k \in {"grp", "och", "fbn", "sid"}
             s2 == [Observed(s, e) EXCEPT !.grp = IF f.k = "grp" THEN e.v ELSE @, !.sid = IF f.k = "sid" THEN e.v ELSE @]
             bad == ~Ok(e.d) \/ Buf(e) # (IF Ok(e.bf) THEN x ELSE Take(x, Len(s.d))) \/ e.d[2] # Take(x, Len(s.d)) IN
         Out(If(bad, "set.buf") \union If(bad /\ common, "set.hdr") \union If(bad, "set." \o e.f)
             \union If(Ok(e.d) /\ Len(e.d[2]) = Len(s.d) /\ LET o == f.o - Shift(m, s.form) IN
                       ~CodeOk(e.d[2], f, o) \/ ReadAt(e.d[2], f, o) # Norm(f.k, e.v), "set.code")
             \union If(e.g[1] = "panic", "total") \union If(Ok(e.g) /\ e.g[2] # Norm(f.k, e.v), "set.get") \union If(~Ok(e.g), "set.get"),
             s2)

EvText(s, e) ==
    LET m == M0(s) IN
    IF e.res = "na" THEN Out({}, s)
    ELSE IF ~Sound(s) THEN Out({}, IF e.res = "panic" THEN Dead ELSE Observed(s, e))
    ELSE LET r == TextRes(m, s.kind, s.cap, s.d, e.v) IN
         IF e.res = "panic" THEN Out({"text.res"}, Dead)
         ELSE LET o == Observed(s, e)
                  hd(d) == [i \in 1..(Len(d) \div 16) |-> SubSeq(d, (i - 1) * 16 + 1, (i - 1) * 16 + TextOff(m))] IN
              Out(If(e.res # r.res, "text.res") \union If(~Ok(e.d) \/ e.d[2] # r.d, "text.data")
                  \union If(Ok(e.d) /\ e.res = r.res /\ hd(e.d[2]) # hd(r.d), "text.hdr") \union (IF e.res = "ok" THEN Grown(s.kind, e) ELSE {}), o)

SameHeads(m, d, grp, sid) == LET ps == Packets(d, m.size) IN \A i \in DOMAIN ps : ps[i][1] % 16 = grp /\ (m.fam = "sx8" => ps[i][3] = sid)
EvSx(s, e) ==
    LET m == M0(s) IN
    IF e.res = "na" THEN Out({}, s)
    ELSE LET r == EditRes(m, s.form, s.kind, s.cap, e, s.pl)
             enc == IF e.op = "sx_byte" /\ r.res = "ok" THEN (IF Sound(s) /\ Payload(m, s.form, s.d) = s.pl THEN SetByte(m, s.form, s.d, e.a, e.items[1]) ELSE s.d)
                    ELSE EncSx(m, s.form, s.grp, s.sid, r.pl) IN
         IF r.res = "panic" THEN Out(If(e.res # "panic", "sx.bounds"), Dead)
         ELSE IF e.res = "panic" THEN Out({"sx.res"}, Dead)
         ELSE LET o == [Observed(s, e) EXCEPT !.pl = r.pl] IN
              IF e.res # r.res THEN Out({"sx.res"}, Dead)
              ELSE Out((IF e.res = "ok" THEN If(~Ok(e.d) \/ e.d[2] # enc, "sx.canon") \union (IF e.op = "sx_byte" THEN {} ELSE Grown(s.kind, e))
                        ELSE If(~Sound(o) \/ Payload(m, s.form, o.d) # <<>> \/ SxGroup(m, s.form, o.d) # s.grp \/ SxSid(m, o.d) # s.sid, "sx.fail"))
                       \union If(~Ok(e.d) \/ (s.form = "u" /\ ~SameHeads(m, e.d[2], s.grp, s.sid)), "sx.hdr"), o)

EvRead(s, e) ==
    LET m == M0(s)
        good == Sound(s) IN
    IF ~good THEN Out(If(Panics(e.rd), "total") \union (IF Sx(m) /\ s.ty = s.inner THEN
                          If(Ok(e.rd.pl) /\ e.rd.pl[2] # s.pl, "payload") \union If(Ok(e.rd.ps) /\ e.rd.ps[2] # Len(s.pl), "paysize") \union {"unsound"} ELSE {"unsound"}), s)
    ELSE Out(ReadLabels(m, s.form, s.d, IF Sx(m) THEN s.pl ELSE <<>>, e.rd)
             \union If(Whole(s) /\ ~Growable(s.kind) /\ MsgLen(m, s.form, s.b) # Len(s.d), "extent")
             \union (IF Sx(m) /\ s.form = "u" THEN If(SxGroup(m, s.form, s.d) # s.grp \/ SxSid(m, s.d) # s.sid, "sxhdr") ELSE {})
             \union If(Sx(m) /\ \E i \in DOMAIN e.rd.f : LET x == e.rd.f[i] IN
                            x[2] = "ok" /\ ((x[1] = "group" /\ x[3] # s.grp) \/ (x[1] = "stream_id" /\ x[3] # s.sid)), "sxhdr")
             \union If(s.ty \in Aggs /\ e.rd.var # s.inner, "variant"), s)

EvIter(s, e) ==
    IF e.res = "na" \/ ~Sound(s) THEN Out({}, s)
    ELSE Out(If(e.res # "ok" \/ ~IterOk(e.what = "tx", Items(M0(s), s.form, s.d, e.what), e.calls, e.out, 1), "iter"), s)

EvReparse(s, e) ==
    IF ~Sound(s) THEN Out({"unsound"}, s)
    ELSE IF e.res = "na" THEN Out({}, s)
    ELSE LET m == M0(s) IN
         Out(If(e.res # "ok" \/ e.eq \in {"no", "panic"}, "reparse")
             \union (IF e.res = "ok" THEN If(ReadLabels(m, s.form, s.d, PayloadOr(m, s.form, s.d), e.rd) \ {"fbdsize"} # {}, "reparse")
                                          \union If(s.ty \in Aggs /\ e.rd.var # s.inner, "reparse") ELSE {}), s)

EvConv(s, e) ==
    LET m == M0(s)
        form2 == OtherForm(s.form)
        agg2 == CASE s.ty = "agg:Ump" -> "agg:Bytes" [] s.ty = "agg:Bytes" -> "agg:Ump" [] OTHER -> s.ty IN
    IF e.res = "na" \/ ~Convertible(m) \/ ~Sound(s) THEN Out({}, IF e.res = "na" THEN s ELSE Dead)
    ELSE LET fits == Fits(e.to, form2, e.cap, ConvLen(m, s.form, s.d)) IN
         IF e.res # "ok" THEN Out(If(fits \/ e.res = "panic", "conv.res"), Dead)
         ELSE IF ~Ok(e.d) THEN Out({"conv.data"}, Dead)
         ELSE LET x == Convert(m, s.form, s.d)
                  good == Len(e.d[2]) = Len(x) /\ (IF Plain(m, s.form, s.d) THEN e.d[2] = x ELSE SameFields(m, s.form, s.d, form2, e.d[2])) IN
              Out(If(~fits, "conv.res") \union If(~good, "conv.data")
                  \union If(e.ty2 # agg2 \/ e.form2 # form2 \/ (agg2 \in Aggs /\ e.var # s.inner), "conv.var"),
                  Enter(agg2, s.inner, form2, e.to, e.cap, e, s.pl, 0, 0))

EvRebuf(s, e) ==
    LET m == M0(s) IN
    IF e.res = "na" THEN Out({}, s)
    ELSE LET may == Fits(e.to, s.form, e.cap, Len(s.d))    \* must fail if the message does not fit, must not if its whole buffer does
             must == Fits(e.to, s.form, e.cap, Len(s.b)) IN
         IF e.res # "ok" THEN Out(If((e.res = "panic" /\ (e.api # "array" \/ may)) \/ (must /\ e.res = "err" /\ Sound(s)), "rebuf.res"), Dead)
         ELSE IF ~Ok(e.d) THEN Out({"rebuf.data"}, Dead)
         ELSE Out(If(~may, "rebuf.res") \union If(e.d[2] # s.d, "rebuf.data")
                  \union If(e.ty2 # s.ty \/ e.form2 # s.form \/ (s.ty \in Aggs /\ e.var # s.inner), "rebuf.var"),
                  Enter(s.ty, s.inner, s.form, e.to, IF e.to \in {"SF", "MS"} THEN Len(Buf(e)) \div Unit(s.form) ELSE e.cap, e, s.pl, s.grp, s.sid))

EvWrap(s, e) ==
    IF e.res = "na" THEN Out({}, s)
    ELSE IF e.res # "ok" \/ ~Ok(e.d) THEN Out({"wrap"}, Dead)
    ELSE Out(If(e.d[2] # s.d \/ e.form2 # s.form \/ e.var # s.inner, "wrap"),
             Enter(e.ty2, s.inner, s.form, s.kind, s.cap, e, s.pl, s.grp, s.sid))

RECURSIVE PktSets(_, _, _)
PktSets(x, sets, i) == IF i > Len(sets) THEN x ELSE PktSets(PktSet(x, sets[i][1], sets[i][2]), sets, i + 1)
PktLabels(e) ==
    LET a == PktAccept(e.fam, e.buf) IN
    IF e.res = "panic" THEN {"pkt.total"}
    ELSE If(e.res = "ok" /\ a = "no", "pkt.accept") \union If(e.res = "err" /\ a = "yes", "pkt.accept")
    \union (IF e.res # "ok" THEN {} ELSE
        If(\E i \in DOMAIN e.f : e.f[i][2] = "panic", "pkt.total")
        \union If(e.sr # "ok", "pkt.total")
        \union (IF a # "yes" THEN {} ELSE
            LET f == PktFam(e.fam, e.buf)
                w == Take(e.buf, 4 * FamWords[f]) IN
            If(e.w # w, "pkt.words")
            \union If(\E i \in DOMAIN e.f : e.f[i][2] = "ok" /\ e.f[i][3] # PktGet(f, w, e.f[i][1]), "pkt.get")
            \union If(e.w2 # PktSets(w, e.set, 1), "pkt.set")
            \union If(e.fam = "any" /\ e.var # f, "pkt.var")
            \union (IF Has(e, "out") THEN If(~IterOk(FALSE, PktGet(f, w, "payload"), e.calls, e.out, 1), "pkt.iter") ELSE {})))
EvPkt(s, e) == Out(IF e.res = "na" THEN {} ELSE PktLabels(e), s)

(* the packet stream of several senders, reassembled *)
LinkPayload(x) == LET m == MsgOf[x[1]] IN IF m.kind = "sysex" THEN Payload(m, "u", x[2]) ELSE <<>>
EvLink(s, e) ==
    IF e.res = "panic" THEN Out({"link.total"}, s)
    ELSE IF e.res # "ok" THEN Out({"link"}, s)
    ELSE LET want == TLCEval(Delivered(e.senders, e.order)) IN
         Out(If(Len(e.del) # Len(want), "link")
             \union If(\E i \in 1..Min2(Len(want), Len(e.del)) : LET o == Open(want[i])
                                                                     g == e.del[i] IN
                   \/ g[4] # want[i]
                   \/ g[5] # (IF want[i][1] \div 16 = 5 /\ Unexpected(Drop(want[i], Len(want[i]) - 16)) THEN 1 ELSE 0)
                   \/ AcceptAny("agg:Ump", "u", want[i]) # "any" /\ <<g[1], g[2]>> # o
                   \/ o[1] # "reject" /\ g[1] # "reject" /\ g[3] # LinkPayload(o), "link"), s)

(* builds with a selection of the features *)
Sel(e) == {e.feats[i] : i \in DOMAIN e.feats}
EvFParse(s, e) ==
    LET Fs == Sel(e)
        ty == IF e.form = "u" THEN "agg:Ump" ELSE "agg:Bytes"
        a == AcceptIn(Fs, ty, e.form, e.buf) IN
    Out(IF e.form = "b" /\ e.res = "na" THEN If(BytesExist(Fs), "feat")
        ELSE If(e.res = "panic", "feat") \union If(e.res = "ok" /\ a = "no", "feat") \union If(e.res = "err" /\ a = "yes", "feat")
             \union (IF e.res # "ok" \/ a = "no" THEN {}
                     ELSE LET m == MsgOf[Designate(ty, e.form, e.buf)] IN
                          If(e.vf # m.fam \/ e.data # Data(m, e.form, e.buf), "feat")
                          \union (IF e.form = "u" THEN If(e.pk # Take(PacketsOf(m, "u", Data(m, "u", e.buf)), 64), "feat") ELSE {})), s)
EvFPkt(s, e) ==
    LET a == PktAcceptIn(Sel(e), e.buf) IN
    Out(If(e.res = "panic", "feat") \union If(e.res = "ok" /\ a = "no", "feat") \union If(e.res = "err" /\ a = "yes", "feat")
        \union (IF e.res # "ok" \/ a # "yes" THEN {} ELSE LET f == PktFam("any", e.buf) IN If(e.vf # f \/ e.data # Take(e.buf, 4 * FamWords[f]), "feat")), s)
EvFLife(s, e) ==
    Out(If({SubSeq(e.out[i], 1, 3) : i \in DOMAIN e.out} # Life(Sel(e)), "feat")
        \union If(\E i \in DOMAIN e.out : LET x == e.out[i] IN x[3] # "panic" /\ x[4] # Seen(x[1], x[2], x[3], e.group, e.text, e.payload), "feat"), s)

Eval(s, e) ==
    CASE e.op = "parse" -> EvParse(s, e)
      [] e.op = "load" -> EvLoad(s, e)
      [] e.op = "new" -> EvNew(s, e)
      [] e.op = "pkt" -> EvPkt(s, e)
      [] e.op = "link" -> EvLink(s, e)
      [] e.op = "fparse" -> EvFParse(s, e)
      [] e.op = "fpkt" -> EvFPkt(s, e)
      [] e.op = "flife" -> EvFLife(s, e)
      [] ~s.live -> Out({}, s)
      [] e.op = "set" -> EvSet(s, e)
      [] e.op = "text" -> EvText(s, e)
      [] e.op \in {"sx_set", "sx_append", "sx_append1", "sx_insert", "sx_splice", "sx_byte"} -> EvSx(s, e)
      [] e.op = "read" -> EvRead(s, e)
      [] e.op = "iter" -> EvIter(s, e)
      [] e.op = "reparse" -> EvReparse(s, e)
      [] e.op = "conv" -> EvConv(s, e)
      [] e.op = "rebuf" -> EvRebuf(s, e)
      [] e.op = "wrap" -> EvWrap(s, e)

(* ------------------------------------------- comparison with a reference -- *)
(* an event with a key is compared with the first event of its group that had the same key *)
Drop1(r, ks) == [k \in DOMAIN r \ ks |-> r[k]]
FieldMap(fs) == [n \in {fs[i][1] : i \in DOMAIN fs} |-> LET x == fs[CHOOSE i \in DOMAIN fs : fs[i][1] = n] IN <<x[2], x[3]>>]
Outcome(e) ==
    [res |-> IF Has(e, "res") THEN e.res ELSE "-", d |-> IF Has(e, "d") /\ e.op # "read" THEN e.d ELSE <<>>, g |-> IF Has(e, "g") THEN e.g ELSE <<>>,
     out |-> IF Has(e, "out") THEN e.out ELSE <<>>,
     rd |-> IF Has(e, "rd") THEN [d |-> e.rd.d, pk |-> e.rd.pk, f |-> FieldMap(e.rd.f), ps |-> e.rd.ps, pl |-> e.rd.pl, tx |-> e.rd.tx, tb |-> e.rd.tb] ELSE <<>>]
Na(x) == x = <<>> \/ x[1] = "na"
Agree(x, y) == Na(x) \/ Na(y) \/ x = y
SameRd(a, b) == IF a = <<>> \/ b = <<>> THEN a = b
                ELSE /\ a.d = b.d /\ Agree(a.pk, b.pk) /\ Agree(a.ps, b.ps) /\ Agree(a.pl, b.pl) /\ Agree(a.tx, b.tx) /\ Agree(a.tb, b.tb)
                     /\ \A n \in DOMAIN a.f \intersect DOMAIN b.f : a.f[n] = b.f[n]
SameOutcome(a, b) == a.res = b.res /\ a.d = b.d /\ Agree(a.g, b.g) /\ a.out = b.out /\ SameRd(a.rd, b.rd)
Compare(r, e) == IF ~Has(e, "key") \/ (Has(e, "soft") /\ Has(e, "res") /\ e.res # "ok") THEN {} ELSE IF e.key \in DOMAIN r THEN If(~SameOutcome(r[e.key], Outcome(e)), "same") ELSE {}
Remember(r, e) == IF e.op \in {"new", "load"} /\ Has(e, "fresh") THEN (IF Has(e, "key") THEN [k \in {e.key} |-> Outcome(e)] ELSE <<>>)
                  ELSE IF Has(e, "key") /\ e.key \notin DOMAIN r THEN [k \in DOMAIN r \union {e.key} |-> IF k = e.key THEN Outcome(e) ELSE r[k]] ELSE r

Init == l = 1 /\ st = Dead /\ ref = <<>>
Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               x == Eval(st, e)
               r0 == IF e.op \in {"new", "load"} /\ Has(e, "fresh") THEN <<>> ELSE ref
               mis == x.mis \union Compare(r0, e) IN
           /\ IF mis = {} THEN TRUE ELSE PrintT(<<"MISMATCH", e.i, mis>>)
           /\ st' = x.st
           /\ ref' = Remember(ref, e)
           /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Done == l = Len(Ev) + 1
=============================================================================
