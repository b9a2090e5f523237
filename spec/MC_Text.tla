------------------------------- MODULE MC_Text ------------------------------
(* Text messages: every change of text from every shape, interleaved with      *)
(* header edits, on growing and on limited buffers.  Shapes (type, buffer,    *)
(* number of text octets, headers) are the view; transitions are replayed.    *)
EXTENDS MC
CONSTANTS TypeNames, Bufs, MaxPk, Wide
VARIABLES m, kind, cap, d, tx, hd, hist
vars == <<m, kind, cap, d, tx, hd, hist>>
ASSUME BothUtf8({0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 194, 223, 224, 225, 237, 240, 241, 244, 245, 255}, 3) /\ BothUtf8({65, 128, 144, 191, 195, 226, 237, 240, 244}, 5)
TC == TextCap(m)
View == <<m.ty, kind, cap, Len(d), Len(tx), hd>>
OpNew(x, k, c) == [op |-> "new", ty |-> x.ty, form |-> "u", kind |-> k, api |-> "with", init |-> IF k = "ST" THEN <<>> ELSE [i \in 1..(c * 4) |-> 255], cap |-> c, dirt |-> 255]
(* a legal message that is not canonical: the text of n octets spread over packets with empty space between *)
Spread(x, n, k) == LET part == Ser(64, n) IN
    Concat([i \in 1..k |-> LET hd0 == Take(New(x, "u"), TextOff(x))
                               st == IF x.fam = "flex" THEN PutBits(hd0, 8, 2, StatusFor(i, k)) ELSE PutBits(hd0, 4, 2, StatusFor(i, k)) IN
                           st \o Pad(Part(part, i, CeilDiv(n, k)), TextCap(x))])
Init == \E i \in DOMAIN Types : Types[i].ty \in TypeNames /\ \E k \in Bufs : \E c \in (IF Growable(k) THEN {6} ELSE {4, 7, 8, 13}) :
          /\ m = Types[i] /\ kind = k /\ cap = c /\ hd = <<>>
          /\ \/ d = New(m, "u") /\ tx = <<>> /\ hist = <<OpNew(m, k, c)>>
             \/ \E n \in {0, 2, 7}, q \in 1..3 : /\ d = Spread(m, n, q) /\ tx = TextOf(m, d) /\ Fits(k, "u", c, Len(d)) /\ k \in {"SV", "ST"}
                                                 /\ hist = <<OpLoad(m, "u", k, d, c)>>
Lens == IF Wide THEN 0..(MaxPk * TC + 1) ELSE UNION {{TC * i - 1, TC * i, TC * i + 1} : i \in 1..MaxPk} \union {0, 1}
(* n octets of text, ending in a character of w octets *)
Last(w) == CASE w = 1 -> <<120>> [] w = 2 -> <<195, 169>> [] w = 3 -> <<226, 130, 172>> [] w = 4 -> <<240, 159, 152, 128>>
Str(n, w) == IF w > n THEN Ser(33, n) ELSE Ser(33, n - w) \o Last(w)
Texts == \E n \in Lens : \E w \in (IF Wide THEN {1, 2, 3, 4} ELSE {1 + ((n + Len(tx)) % 4)}) :
            LET v == Str(n, w)
                r == TextRes(m, kind, cap, d, v) IN
            /\ d' = r.d
            /\ tx' = IF r.res = "ok" THEN v ELSE tx
            /\ hist' = Append(hist, [op |-> "text", v |-> v])
            /\ Emit(hist' \o <<OpRead, [op |-> "reparse"]>>)
            /\ UNCHANGED <<m, kind, cap, hd>>
Heads == /\ hd = <<>> /\ \E i \in Settable(m, "u") : \E v \in Vals(m.fields[i], 2) : LET f == m.fields[i] IN
              /\ d' = Set(m, "u", d, f.n, v) /\ hd' = <<f.n, v>>
              /\ hist' = Append(hist, OpSet(f.n, v)) /\ Emit(hist' \o <<OpRead, [op |-> "reparse"]>>)
         /\ UNCHANGED <<m, kind, cap, tx>>
Next == Texts \/ Heads
Spec == Init /\ [][Next]_vars
IsText == TextOf(m, d) = tx /\ Utf8(tx)
Legality == Legal(m, "u", d) /\ MsgLen(m, "u", d) = Len(d) /\ Accept(m, "u", d) = "yes" /\ Fits(kind, "u", cap, Len(d))
Headers == LET ps == Packets(d, 16) IN \A i \in DOMAIN ps : \A j \in DOMAIN m.fields : LET f == m.fields[j] IN
              ReadAt(ps[i], f, f.o) = IF hd # <<>> /\ hd[1] = f.n THEN hd[2] ELSE f.d
Minimal == hist[Len(hist)].op = "text" /\ hist[Len(hist)].v = tx => Len(d) = 16 * TextPackets(m, Len(tx))
=============================================================================
