---------------------------- MODULE MC_Dispatch -----------------------------
(* Every header: which message type, if any, does it designate?  Checked on   *)
(* the specification: at most one message type accepts a slice, it is the     *)
(* designated one, every family and the top level agree, and every message    *)
(* type is reachable.  Each slice is parsed by the real code, through the top *)
(* level and the family aggregate.                                            *)
EXTENDS MC
CONSTANTS Slow,    \* TRUE: check every slice against every message type (else only those of its family)
          Noise    \* content octets behind the header
VARIABLES form, b
Banks == {0, 1, 2, 3, 255}
FlexSt == 0..27 \union {64, 128, 255}
Fill16(h, x) == Take(h \o [i \in 1..(16 - Len(h)) |-> x], 16)
Heads == {<<t * 16 + g, st, x, x>> : t \in (0..15) \ {13, 15}, g \in {0, 15}, st \in 0..255, x \in Noise}
FlexHeads == {<<208, h, bank, st>> : h \in {0, 16, 37, 53, 80, 144, 208, 255}, bank \in Banks, st \in FlexSt} \union {<<208, h, 0, 0>> : h \in 0..255}
StrHeads == {<<240 + top, st, 1, 1>> : top \in 0..15, st \in 0..255}
Init == /\ \/ form = "u" /\ \E h \in Heads \union FlexHeads \union StrHeads : \E x \in Noise : b = Fill16(h, x)
           \/ form = "b" /\ \E st \in 0..255, n \in 1..4 : b = [i \in 1..n |-> IF i = 1 THEN st ELSE IF i = n /\ st = 240 THEN 247 ELSE 20 + i]
Top == IF form = "u" THEN "agg:Ump" ELSE "agg:Bytes"
Fam == LET t == TypeOf(form, b) IN IF t \in {"none", "sx7", "sx8"} THEN {} ELSE {"agg:" \o t}
Next == /\ form # "done" /\ form' = "done" /\ b' = <<>>
        /\ Emit(<<OpParse(Top, form, b)>>) /\ \A a \in Fam : Emit(<<OpParse(a, form, b)>>)
Spec == Init /\ [][Next]_<<form, b>>
Candidates == IF Slow THEN {i \in DOMAIN Types : form \in Forms(Types[i]) /\ Types[i].fam # "ci"} ELSE {i \in DOMAIN Types : Types[i].fam = TypeOf(form, b) /\ form \in Forms(Types[i])}
Takers == {Types[i].ty : i \in {j \in Candidates : Accept(Types[j], form, b) # "no"}}
Unique == form = "done" \/ LET T == Takers
                               d == Designate(Top, form, b) IN
            /\ T \subseteq {d}
            /\ (d = "none" => T = {})
            /\ \A a \in Fam : Designate(a, form, b) = d
            /\ \A a \in Aggs \ (Fam \union {Top, "agg:Ump", "agg:Bytes"}) : AcceptAny(a, form, b) = "no"
=============================================================================
