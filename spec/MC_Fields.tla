----------------------------- MODULE MC_Fields ------------------------------
(* Every message type, form and field: setters and getters as a state         *)
(* machine.  Checked on the specification: a getter returns what was set,     *)
(* no other field moves, setters of different fields commute, the message     *)
(* stays legal and is still designated by its header.                         *)
EXTENDS MC
CONSTANTS K,        \* values per field
          Depth,    \* setters in a row
          Kinds     \* families to explore
VARIABLES m, form, b, hist
vars == <<m, form, b, hist>>

Body(x, f) == CASE x.kind = "text" -> EncText(x, New(x, f), Ser(3, 2 * TextCap(x) - 1))
                [] x.kind = "sysex" -> EncSx(x, f, 0, 0, Ser(1, 7 * (IF f = "u" THEN 2 ELSE 1)))
                [] OTHER -> New(x, f)
Behind(x, f) == IF x.kind \in {"fixed"} /\ x.fam \notin {"flex", "stream"} THEN (IF f = "u" THEN <<255, 254, 253, 252>> ELSE <<77, 78>>) ELSE <<>>
Init == \E i \in DOMAIN Types : \E f \in Forms(Types[i]), full \in BOOLEAN :
          /\ Types[i].fam \in Kinds
          /\ m = Types[i] /\ form = f
          /\ b = (IF full THEN Fill(m, f, Body(m, f), Settable(m, f), 1) ELSE Body(m, f)) \o (IF full THEN Behind(m, f) ELSE <<>>)
          /\ hist = <<OpLoad(m, f, "SV", b, 0)>>
Do(i, v) == LET f == m.fields[i] IN
            /\ b' = Set(m, form, b, f.n, v)
            /\ hist' = Append(hist, OpSet(f.n, v))
            /\ UNCHANGED <<m, form>>
Next == /\ Len(hist) <= Depth
        /\ \E i \in Settable(m, form) : \E v \in Vals(m.fields[i], K) : Do(i, v) /\ (IF Len(hist') = Depth + 1 THEN Emit(Append(hist', OpRead)) ELSE TRUE)
Spec == Init /\ [][Next]_vars

Msg == Take(b, MsgLen(m, form, b))
Rd(x, i) == Get(m, form, x, m.fields[i].n)
Here == {i \in DOMAIN m.fields : m.fields[i].o >= Shift(m, form)}
StaysLegal == Len(Msg) > 0 /\ Legal(m, form, Msg) /\ Accept(m, form, Msg) = "yes"
Designated == m.fam = "ci" \/ Designate(IF form = "u" THEN "agg:Ump" ELSE "agg:Bytes", form, Msg) = m.ty
SetGet == \A i \in Settable(m, form) : \A v \in Vals(m.fields[i], K) : LET x == Set(m, form, b, m.fields[i].n, v) IN
            /\ Rd(x, i) = Norm(m.fields[i].k, v)
            /\ Len(x) = Len(b)
            /\ Set(m, form, x, m.fields[i].n, v) = x
            /\ \A j \in Here \ {i} : Rd(x, j) = Rd(b, j)
Commute == Len(hist) > 1 \/ \A i \in Settable(m, form) : \A j \in Settable(m, form) : i < j =>
             \A v \in Vals(m.fields[i], 2), w \in Vals(m.fields[j], 2) :
               Set(m, form, Set(m, form, b, m.fields[i].n, v), m.fields[j].n, w) = Set(m, form, Set(m, form, b, m.fields[j].n, w), m.fields[i].n, v)
=============================================================================
