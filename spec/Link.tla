-------------------------------- MODULE Link --------------------------------
(* A stream of packets and the receiver that puts messages together again.    *)
(* Messages of different streams (message type, group, stream id, address)    *)
(* may be interleaved packet by packet.  The receiver keeps one partial       *)
(* message per stream.                                                        *)
EXTENDS Machine

Key(p) == LET t == TypeFam(p[1] \div 16) IN
    CASE t = "sx7" -> <<"sx7", p[1] % 16>>
      [] t = "sx8" -> <<"sx8", p[1] % 16, p[3]>>
      [] t = "flex" -> <<"flex", p[1] % 16, p[2] % 64, p[3], p[4]>>
      [] t = "stream" -> <<"stream", (p[1] % 4) * 256 + p[2]>>
      [] OTHER -> <<>>
Pos4(p) == LET t == TypeFam(p[1] \div 16) IN
    CASE t \in {"sx7", "sx8"} -> p[2] \div 16 [] t = "flex" -> GetBits(p, 8, 2) [] t = "stream" -> GetBits(p, 4, 2) [] OTHER -> 0

Nobody == [k \in {} |-> <<>>]
Without1(r, k) == TLCEval([x \in DOMAIN r \ {k} |-> r[x]])
With1(r, k, v) == TLCEval([x \in DOMAIN r \union {k} |-> IF x = k THEN v ELSE r[x]])
(* the receiver: partial messages, and the octets handed over by packet p *)
Receive(r, p) ==
    LET k == Key(p)
        s == Pos4(p) IN
    CASE s = 0 -> [part |-> Without1(r, k), out |-> <<p>>]
      [] s = 1 -> [part |-> With1(r, k, p), out |-> <<>>]
      [] s = 2 -> [part |-> IF k \in DOMAIN r THEN With1(r, k, r[k] \o p) ELSE r, out |-> <<>>]
      [] s = 3 -> [part |-> Without1(r, k), out |-> IF k \in DOMAIN r THEN <<r[k] \o p>> ELSE <<>>]
(* what the receiver makes of the octets of a message *)
Open(b) == IF AcceptAny("agg:Ump", "u", b) = "no" THEN <<"reject", <<>>>>
           ELSE LET t == Designate("agg:Ump", "u", b) IN <<t, Data(MsgOf[t], "u", b)>>
MessagePackets(b) == LET t == Designate("agg:Ump", "u", b) IN PacketsOf(MsgOf[t], "u", Data(MsgOf[t], "u", b))
StreamOf(msgs) == Concat([i \in DOMAIN msgs |-> MessagePackets(msgs[i])])

(* order: <<sender, lost>> for every packet sent *)
RECURSIVE Run(_, _, _, _, _)
Run(streams, at, order, i, r) ==
    IF i > Len(order) THEN <<>>
    ELSE LET s == order[i][1]
             p == streams[s][at[s]]
             at2 == [at EXCEPT ![s] = @ + 1] IN
         IF order[i][2] = 1 THEN Run(streams, at2, order, i + 1, r)
         ELSE LET x == Receive(r, p) IN x.out \o Run(streams, at2, order, i + 1, x.part)
Delivered(senders, order) ==
    LET streams == [s \in DOMAIN senders |-> StreamOf(senders[s])] IN
    Run(streams, [s \in DOMAIN senders |-> 1], order, 1, Nobody)
=============================================================================
