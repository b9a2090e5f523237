------------------------------ MODULE MC_Link -------------------------------
(* Several senders share one packet stream; packets may be lost.  Every        *)
(* interleaving is explored.  Without losses every message arrives whole, in  *)
(* the order of its sender; a message none of whose packets was lost arrives  *)
(* whatever happened to the others; nothing is made of a message without its  *)
(* first or its last packet.                                   *)
EXTENDS MC, Link, FiniteSets
CONSTANTS Casts, MaxLost
VARIABLES cast, at, part, got, order, lost
vars == <<cast, at, part, got, order, lost>>

X7 == MsgOf["sx7::Sysex7"]
X8 == MsgOf["sx8::Sysex8"]
T(ty) == MsgOf[ty]
Tx(ty, g, ch, n) == LET m == T(ty)
                        h == New(m, "u")
                        h2 == IF m.fam = "flex" THEN Set(m, "u", Set(m, "u", h, "group", g), "optional_channel", ch) ELSE h IN
                    EncText(m, h2, Ser(40, n))
Fresh(ty, g) == LET m == T(ty) IN IF g = 0 THEN New(m, "u") ELSE Set(m, "u", New(m, "u"), "group", g)
Cast(c) ==
    CASE c = "sysex7" -> <<<<EncSx(X7, "u", 0, 0, Ser(1, 13))>>, <<EncSx(X7, "u", 1, 0, Ser(20, 12)), EncSx(X7, "u", 1, 0, <<>>)>>, <<Fresh("cv1::NoteOn", 0), Fresh("cv2::NoteOn", 1)>>>>
      [] c = "sysex8" -> <<<<EncSx(X8, "u", 0, 0, Ser(1, 27))>>, <<EncSx(X8, "u", 0, 1, Ser(20, 14))>>, <<EncSx(X8, "u", 1, 0, Ser(50, 3)), EncSx(X7, "u", 0, 0, Ser(1, 7))>>>>
      [] c = "text" -> <<<<Tx("flex::Lyrics", 0, 3, 25)>>, <<Tx("flex::Lyrics", 0, -1, 13), Tx("flex::Lyrics", 0, -1, 1)>>, <<Tx("flex::Ruby", 0, 3, 13)>>>>
      [] c = "text2" -> <<<<Tx("flex::ProjectName", 2, 3, 36)>>, <<Tx("flex::ProjectName", 3, 3, 13)>>, <<Fresh("flex::SetTempo", 2), Fresh("util::NoOp", 0)>>>>
      [] c = "stream" -> <<<<Tx("stream::EndpointName", 0, 0, 29)>>, <<Tx("stream::ProductInstanceId", 0, 0, 15)>>, <<Tx("stream::FunctionBlockName", 0, 0, 14), Fresh("stream::StartOfClip", 0)>>>>
      [] c = "alike" -> <<<<EncSx(X7, "u", 4, 0, Ser(1, 13)), EncSx(X7, "u", 4, 0, Ser(30, 7))>>, <<EncSx(X8, "u", 4, 4, Ser(1, 27))>>, <<Fresh("sys::TimingClock", 4), Fresh("sys::SongSelect", 4)>>>>
(* evaluated once *)
Prepared == [c \in Casts |-> LET S == TLCEval(Cast(c)) IN
               [senders |-> S, streams |-> [s \in DOMAIN S |-> TLCEval(StreamOf(S[s]))],
                ends |-> [s \in DOMAIN S |-> TLCEval([i \in 0..Len(S[s]) |-> Len(Concat([j \in 1..i |-> MessagePackets(S[s][j])]))])]]]
ASSUME TLCSet(2, TLCEval(Prepared))
Senders == TLCGet(2)[cast].senders
Streams == TLCGet(2)[cast].streams
AllDone == \A s \in DOMAIN Senders : at[s] > Len(Streams[s])

Init == /\ cast \in Casts
        /\ at = [s \in DOMAIN Senders |-> 1]
        /\ part = Nobody /\ got = <<>> /\ order = <<>> /\ lost = 0
Flush(o, g, a) == IF \A s \in DOMAIN Senders : a[s] > Len(Streams[s])
                  THEN Emit(<<[op |-> "link", senders |-> Senders, order |-> o]>>) ELSE TRUE
Send(s) == /\ at[s] <= Len(Streams[s])
           /\ LET x == TLCEval(Receive(part, Streams[s][at[s]])) IN
              part' = x.part /\ got' = got \o x.out
           /\ at' = [at EXCEPT ![s] = @ + 1]
           /\ order' = Append(order, <<s, 0>>)
           /\ Flush(order', got', at')
           /\ UNCHANGED <<cast, lost>>
Lose(s) == /\ lost < MaxLost /\ at[s] <= Len(Streams[s])
           /\ at' = [at EXCEPT ![s] = @ + 1]
           /\ order' = Append(order, <<s, 1>>)
           /\ lost' = lost + 1
           /\ Flush(order', got, at')
           /\ UNCHANGED <<cast, part, got>>
Next == \E s \in DOMAIN Senders : Send(s) \/ Lose(s)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ invariants - *)
(* the messages of sender s, and which packets of the stream make them up *)
Last(s, i) == TLCGet(2)[cast].ends[s][i]
Range(s, i) == (Last(s, i - 1) + 1)..Last(s, i)
LostOf(s) == {n \in 1..(at[s] - 1) : LET idx == {j \in DOMAIN order : order[j][1] = s} IN
                 LET j == CHOOSE j \in idx : Cardinality({k \in idx : k <= j}) = n IN order[j][2] = 1}
From(s) == SelectSeq(got, LAMBDA b : \E i \in DOMAIN Senders[s] : b = Senders[s][i])
Sent(s) == SelectSeq([i \in DOMAIN Senders[s] |-> IF Last(s, i) < at[s] THEN Senders[s][i] ELSE <<>>], LAMBDA b : b # <<>>)
InOrder == lost = 0 => \A s \in DOMAIN Senders : From(s) = Sent(s)
Nothing == lost = 0 => \A i \in DOMAIN got : \E s \in DOMAIN Senders : \E j \in DOMAIN Senders[s] : got[i] = Senders[s][j]
Clean == lost = 0 /\ AllDone => part = Nobody
Whole1 == \A s \in DOMAIN Senders : \A i \in DOMAIN Senders[s] :
            (Last(s, i) < at[s] /\ Range(s, i) \intersect LostOf(s) = {}) => \E j \in DOMAIN got : got[j] = Senders[s][i]
(* whatever is handed over has a first and a last packet and belongs to one stream *)
PktSize(b) == 4 * FamWords[TypeFam(b[1] \div 16)]
Formed == \A i \in DOMAIN got : LET ps == Packets(got[i], PktSize(got[i]))
                                    n == Len(ps) IN
            Len(got[i]) > PktSize(got[i]) =>
               /\ \A j \in 1..n : Key(ps[j]) = Key(ps[1]) /\ Pos4(ps[j]) = (IF j = 1 THEN 1 ELSE IF j = n THEN 3 ELSE 2)
Alone == \A i \in DOMAIN got : Len(got[i]) = PktSize(got[i]) => Pos4(got[i]) = 0
Readable == lost = 0 /\ AllDone => \A i \in DOMAIN got : Open(got[i])[1] # "reject" /\ Open(got[i])[2] = got[i]
Same == AllDone => got = Delivered(Senders, order)
=============================================================================
