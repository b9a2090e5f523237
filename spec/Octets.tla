------------------------------- MODULE Octets -------------------------------
(* Octet strings and bit fields.                                            *)
(* A UMP word is its 4 octets, most significant first; a MIDI byte is one   *)
(* octet.  Bits are numbered from 0 = most significant bit of octet 1.      *)
(* (TLC integers are 32 bit signed, so a 32 bit value is 4 octets.)         *)
EXTENDS Integers, Sequences

Octet == 0..255
Zeros(n) == [i \in 1..n |-> 0]
Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Pow(n) == 2 ^ n

RECURSIVE Num(_, _, _)
Num(b, i, j) == IF i = j THEN b[i] ELSE Num(b, i, j - 1) * 256 + b[j]

(* the w bits of b that start at bit o, as a number (w <= 24) *)
GetBits(b, o, w) ==
    LET last == (o + w - 1) \div 8 IN
    (Num(b, o \div 8 + 1, last + 1) \div Pow(8 * (last + 1) - (o + w))) % Pow(w)

(* b with those bits replaced by v; nothing else changes *)
PutBits(b, o, w, v) ==
    LET f == o \div 8 + 1
        l == (o + w - 1) \div 8 + 1 IN
    [i \in 1..Len(b) |->
        IF i < f \/ i > l THEN b[i]
        ELSE LET lo == Max2(o, 8 * (i - 1))
                 hi == Min2(o + w, 8 * i)
                 sh == 8 * i - hi
                 part == (v \div Pow(o + w - hi)) % Pow(hi - lo)
                 old == (b[i] \div Pow(sh)) % Pow(hi - lo) IN
             b[i] + (part - old) * Pow(sh)]

(* b with the octets from index i (from 1) replaced by those of s *)
PutOctets(b, i, s) == [k \in 1..Len(b) |-> IF k < i \/ k >= i + Len(s) THEN b[k] ELSE s[k - i + 1]]

RECURSIVE Cat2(_, _, _)
Cat2(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                  ELSE LET m == (i + j) \div 2 IN Cat2(ss, i, m) \o Cat2(ss, m + 1, j)
Concat(ss) == Cat2(ss, 1, Len(ss))

(* packets of n octets (a partial tail is ignored) *)
Packets(b, n) == [i \in 1..(Len(b) \div n) |-> SubSeq(b, (i - 1) * n + 1, i * n)]

IsOctets(b) == \A i \in DOMAIN b : b[i] \in Octet
RECURSIVE Filt(_, _, _)
Filt(s, i, v) == IF i > Len(s) THEN <<>> ELSE (IF s[i] = v THEN <<>> ELSE <<s[i]>>) \o Filt(s, i + 1, v)
Without(s, v) == SelectSeq(s, LAMBDA x : x # v)
=============================================================================
