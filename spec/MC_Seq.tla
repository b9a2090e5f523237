------------------------------- MODULE MC_Seq -------------------------------
(* Sequences of packets: a packet automaton (idle, inside, whole, broken) on  *)
(* one side, acceptance as the specification defines it on the other.         *)
(* Checked: a slice is a message exactly when the automaton has just become   *)
(* whole; a whole message stays readable whatever follows; the payload of a   *)
(* whole message is the concatenation of what its packets carry.              *)
EXTENDS MC
CONSTANTS MaxPk,      \* packets
          TypeNames   \* message types
VARIABLES m, ps, a, pl, whole
vars == <<m, ps, a, pl, whole>>
IsSx == m.kind = "sysex"
Cap(x) == IF x.kind = "sysex" THEN SxCap(x) ELSE TextCap(x)
(* one packet: status s, carrying n octets, header variant h (0: like the first) *)
Pk(x, s, n, h, k) ==
    LET c == Ser(40 + 3 * k, n) IN
    CASE x.fam = "sx7" -> <<48 + h, s * 16 + n>> \o Pad(c, 6)
      [] x.fam = "sx8" -> <<80 + (IF h = 1 THEN 1 ELSE 0), s * 16 + n + 1, IF h = 2 THEN 9 ELSE 0>> \o Pad(c, 13)
      [] x.fam = "flex" -> LET z == WithHdr(x, "u", Zeros(16), 1) IN PutOctets(PutBits(PutBits(PutBits(z, 8, 2, s), 10, 2, 1), 4, 4, h), 5, Pad(c, 12))
      [] OTHER -> LET z == WithHdr(x, "u", Zeros(16), 1) IN PutOctets(IF TextOff(x) = 3 THEN PutBits(PutBits(z, 4, 2, s), 16, 8, h) ELSE PutBits(z, 4, 2, s), TextOff(x) + 1, Pad(c, TextCap(x)))
HasHead(x) == x.kind = "sysex" \/ x.fam = "flex" \/ TextOff(x) = 3
Heads(x) == IF x.fam = "sx8" THEN {0, 1, 2} ELSE IF HasHead(x) THEN {0, 1} ELSE {0}
Stats(x) == IF x.kind = "sysex" THEN 0..4 ELSE 0..3
Sizes(x) == IF x.fam = "sx7" THEN {0, 3, 6, 7, 15} ELSE IF x.fam = "sx8" THEN {-1, 0, 5, 13, 14} ELSE {0, Cap(x)}
SizeOk(x, n) == n \in 0..Cap(x)
Init == m \in {Types[i] : i \in {j \in DOMAIN Types : Types[j].ty \in TypeNames}} /\ ps = <<>> /\ a = "idle" /\ pl = <<>> /\ whole = 0
Step(s, n, h) ==
    LET ok == SizeOk(m, n) /\ h = 0 /\ s \in 0..3 IN
    /\ ps' = Append(ps, Pk(m, s, n, h, Len(ps)))
    /\ a' = CASE a \in {"broken", "over"} -> a
              [] a = "whole" -> "over"
              [] ~ok /\ ~(a = "idle" /\ h # 0 /\ SizeOk(m, n) /\ s \in 0..3) -> "broken"
              [] a = "idle" -> IF s = 0 THEN "whole" ELSE IF s = 1 THEN "inside" ELSE "broken"
              [] a = "inside" -> IF s = 2 THEN "inside" ELSE IF s = 3 THEN "whole" ELSE "broken"
    /\ pl' = IF a \in {"idle", "inside"} /\ SizeOk(m, n) THEN pl \o Ser(40 + 3 * Len(ps), n) ELSE pl
    /\ whole' = IF a' = "whole" THEN Len(ps') ELSE whole
    /\ UNCHANGED m
Next == /\ Len(ps) < MaxPk /\ a \in {"idle", "inside", "whole"}
        /\ \E s \in Stats(m), n \in Sizes(m), h \in Heads(m) :
             /\ (a = "whole" => n = 0 /\ h = 0) /\ (h # 0 => n \in {0, Cap(m)}) /\ (s = 4 => n = 0)
             /\ (h # 0 => a # "idle")
             /\ Step(s, n, h)
             /\ Emit(<<OpParse(m.ty, "u", Concat(ps'))>>)
             /\ (m.fam \in {"sx7", "sx8"} \/ s = 0 => Emit(<<OpParse("agg:Ump", "u", Concat(ps'))>>))
Spec == Init /\ [][Next]_vars
B == Concat(ps)
Acceptance == CASE a = "whole" -> Accept(m, "u", B) = "yes"
                [] a = "over" -> Accept(m, "u", B) = "any"
                [] OTHER -> Accept(m, "u", B) = "no"
Extent == a \in {"whole", "over"} => Data(m, "u", B) = Concat(SubSeq(ps, 1, whole))
Contents == a = "whole" => IF IsSx THEN Payload(m, "u", B) = pl ELSE TextOf(m, B) = pl
Partition == a = "whole" => Concat(PacketsOf(m, "u", B)) = B /\ \A i \in DOMAIN ps : PktAccept(m.fam, ps[i]) = "yes" /\ PacketsOf(m, "u", B)[i] = ps[i]
=============================================================================
