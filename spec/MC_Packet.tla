------------------------------ MODULE MC_Packet -----------------------------
(* Every packet header of every packet type.  Checked: the top level packet   *)
(* type decides by the type nibble alone and agrees with the family's packet  *)
(* type; what a packet holds is within its words; group and channel setters   *)
(* touch nothing else; a complete legal packet is a message of its own.       *)
EXTENDS MC
CONSTANTS Bodies, Groups
GroupsAll == 0..15
VARIABLES fam, b
Fams == {"util", "sys", "cv1", "sx7", "cv2", "sx8", "flex", "stream"}
Body(k, n) == [i \in 1..n |-> CASE k = "zero" -> 0 [] k = "ones" -> 255 [] k = "ser" -> (3 * i) % 128 [] k = "tail" -> IF i = n THEN 1 ELSE 0]
Init == \E f \in Fams \union {"any"}, t \in 0..15, g \in Groups, st \in 0..255, k \in Bodies, n \in 0..5 :
          /\ (f # "any" => FamWords[f] # 0)
          /\ (n # 4 => st % 16 \in {0, 1, 6, 7, 14, 15} /\ k = "ser")
          /\ (k # "ser" => f \in {"sx8", "any"} /\ t \in {3, 5})
          /\ (f \in Fams => TypeFam(t) = f \/ st % 64 = 17)
          /\ fam = f
          /\ b = SubSeq(<<16 * t + g, st>> \o Body(k, 18), 1, 4 * n)
Next == fam # "done" /\ fam' = "done" /\ b' = <<>> /\
        Emit(<<[op |-> "pkt", fam |-> fam, buf |-> b, set |-> IF fam \in {"cv1", "cv2"} THEN <<<<"group", 9>>, <<"channel", 6>>>> ELSE IF fam \in {"util", "stream", "any"} THEN <<>> ELSE <<<<"group", 9>>>>,
                calls |-> IF fam \in {"sx7", "sx8"} THEN <<<<"len", 0>>, <<"next", 0>>, <<"hint", 0>>, <<"all", 0>>>> ELSE <<>>]>>)
Spec == Init /\ [][Next]_<<fam, b>>
Words(f) == 4 * FamWords[f]
Top == fam = "any" => LET t == IF b = <<>> THEN "none" ELSE TypeFam(b[1] \div 16) IN
         PktAccept("any", b) = IF t = "none" THEN "no" ELSE PktAccept(t, b)
OnlyOne == fam \in Fams => (PktAccept(fam, b) # "no" => \A f \in Fams \ {fam} : PktAccept(f, b) = "no")
Holds == fam \in {"sx7", "sx8"} /\ PktAccept(fam, b) = "yes" => Len(PktGet(fam, Take(b, Words(fam)), "payload")) <= Words(fam) - (IF fam = "sx7" THEN 2 ELSE 3)
Writes == fam \in Fams /\ PktAccept(fam, b) = "yes" => LET w == Take(b, Words(fam)) IN
            /\ \A g \in {0, 9} : LET x == PktSet(w, "group", g) IN PktGet(fam, x, "group") = g /\ Drop(x, 1) = Drop(w, 1) /\ PktSet(x, "group", w[1] % 16) = w
            /\ \A c \in {0, 6} : LET x == PktSet(w, "channel", c) IN PktGet(fam, x, "channel") = c /\ PktSet(x, "channel", w[2] % 16) = w
Complete == fam \in {"sx7", "sx8"} /\ PktAccept(fam, b) = "yes" /\ Len(b) = Words(fam) /\ b[2] \div 16 = 0 =>
              LET m == MsgOf[IF fam = "sx7" THEN "sx7::Sysex7" ELSE "sx8::Sysex8"] IN
              Accept(m, "u", b) = "yes" /\ Payload(m, "u", b) = PktGet(fam, b, "payload")
=============================================================================
