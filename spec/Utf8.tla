-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 well-formedness (RFC 3629), once octet by octet (Utf8, used on long  *)
(* strings) and once as a small automaton (Utf8From); MC_Text checks that     *)
(* they agree.                                                                *)
EXTENDS Octets
Cont(x) == x \in 128..191
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET x == b[i]
             has(n) == i + n <= Len(b)
             c(k) == Cont(b[i + k]) IN
         IF x < 128 THEN Utf8From(b, i + 1)
         ELSE IF x \in 194..223 THEN has(1) /\ c(1) /\ Utf8From(b, i + 2)
         ELSE IF x \in 224..239 THEN /\ has(2) /\ c(1) /\ c(2)
                                     /\ (x = 224 => b[i + 1] >= 160)
                                     /\ (x = 237 => b[i + 1] < 160)
                                     /\ Utf8From(b, i + 3)
         ELSE IF x \in 240..244 THEN /\ has(3) /\ c(1) /\ c(2) /\ c(3)
                                     /\ (x = 240 => b[i + 1] >= 144)
                                     /\ (x = 244 => b[i + 1] < 144)
                                     /\ Utf8From(b, i + 4)
         ELSE FALSE
Width(x) == IF x < 128 THEN 1 ELSE IF x \in 194..223 THEN 2 ELSE IF x \in 224..239 THEN 3 ELSE IF x \in 240..244 THEN 4 ELSE 0
(* every octet is one of a character: a lead with all that belongs to it, or a continuation with its lead before it *)
Utf8(b) == \A i \in DOMAIN b : LET x == b[i] IN
    IF x < 128 THEN TRUE
    ELSE IF Cont(x) THEN \E k \in 1..3 : k < i /\ Width(b[i - k]) > k
    ELSE LET w == Width(x) IN
         /\ w > 1 /\ i + w - 1 <= Len(b) /\ \A k \in 1..(w - 1) : Cont(b[i + k])
         /\ (x = 224 => b[i + 1] >= 160) /\ (x = 237 => b[i + 1] < 160) /\ (x = 240 => b[i + 1] >= 144) /\ (x = 244 => b[i + 1] < 144)
BothUtf8(alphabet, n) == \A s \in UNION {[1..k -> alphabet] : k \in 0..n} : Utf8(s) = Utf8From(s, 1)
=============================================================================
