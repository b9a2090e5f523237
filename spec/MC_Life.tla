------------------------------- MODULE MC_Life ------------------------------
(* The life of a message: made or loaded, changed, wrapped into aggregates,   *)
(* moved between kinds of buffers, converted between the two forms - in every *)
(* order, on buffers that are large enough and on buffers that are not.       *)
(* A ghost keeps what the user put in; it must survive everything.            *)
EXTENDS MC
CONSTANTS TypeNames, Steps, SxLens
VARIABLES mi, ty, form, kind, cap, d, ghost, pl, live, hist
m == Types[mi]
vars == <<mi, ty, form, kind, cap, d, ghost, pl, live, hist>>
View == <<m.ty, ty, form, kind, cap, ghost, Len(pl), live, Len(hist) > Steps, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Body == {i \in DOMAIN m.fields : m.fields[i].o >= 8 /\ i \in Settable(m, form)}
Vec(x, f, dd) == [i \in {j \in DOMAIN x.fields : x.fields[j].o >= (IF x.bsize > 0 THEN 8 ELSE 0) /\ x.fields[j].n # "group"} |-> ReadAt(dd, x.fields[i], x.fields[i].o - Shift(x, f))]
Set0(names) == {j \in DOMAIN Types : Types[j].ty \in names}
Full(x, f) == CASE x.kind = "sysex" -> EncSx(x, f, 0, 0, Ser(1, 7)) [] x.kind = "text" -> EncText(x, New(x, f), Ser(33, 17)) [] OTHER -> Fill(x, f, New(x, f), Settable(x, f), 1)
PlOf(x, f, dd) == CASE x.kind = "sysex" -> Payload(x, f, dd) [] x.kind = "text" -> TextOf(x, dd) [] OTHER -> <<>>
Init == \E n \in Set0(TypeNames) : LET x == Types[n] IN \E f \in Forms(x) : \E full \in BOOLEAN, k \in {"V", "S"} :
          /\ mi = n /\ ty = x.ty /\ form = f /\ kind = k /\ live = TRUE
          /\ d = TLCEval(IF full THEN Full(x, f) ELSE New(x, f))
          /\ cap = Len(d) \div Unit(f)
          /\ ghost = TLCEval(Vec(x, f, d)) /\ pl = TLCEval(PlOf(x, f, d))
          /\ hist = TLCEval(<<[OpLoad(x, f, k, d, cap) EXCEPT !.dirt = 0]>>)
Put(op) == hist' = TLCEval(Append(hist, op)) /\ Emit(Append(Append(hist, op), OpRead))
InAgg == ty \in Aggs
Changes == /\ ~InAgg /\ kind # "S"
           /\ \/ \E i \in Body : \E v \in Vals(m.fields[i], 2) : LET f == m.fields[i] IN
                    /\ d' = TLCEval(Set(m, form, d, f.n, v))
                    /\ ghost' = TLCEval(Vec(m, form, d')) /\ Put(OpSet(f.n, v)) /\ UNCHANGED <<pl, live>>
              \/ /\ m.kind = "sysex" /\ \E n \in SxLens :
                    LET op == [op |-> "sx_set", items |-> TLCEval(Ser(70, n)), hint |-> "exact", a |-> 0, b |-> 0, range |-> ".."]
                        r == EditRes(m, form, kind, cap, op, pl) IN
                    /\ pl' = TLCEval(r.pl) /\ d' = TLCEval(EncSx(m, form, SxGroup(m, form, d), SxSid(m, d), r.pl)) /\ Put(op) /\ UNCHANGED <<ghost, live>>
           /\ UNCHANGED <<mi, ty, form, kind, cap>>
Room(f) == LET n == ConvLen(m, form, d) \div Unit(f) IN {n - 1, n, n + 1} \intersect 0..99
ConvTargets == LET f == OtherForm(form) IN
    {<<"from", "V", 0>>, <<"into", "SV", 0>>} \union {<<"try_from", "SF", c>> : c \in Room(f)} \union (IF InAgg THEN {} ELSE {<<"try_from", "ST", c>> : c \in Room(f)})
Conv == /\ Convertible(m)
        /\ \E t \in ConvTargets : LET f2 == OtherForm(form)
                                      fits == Fits(t[2], f2, t[3], ConvLen(m, form, d)) IN
             /\ live' = fits /\ form' = f2 /\ kind' = t[2] /\ cap' = t[3]
             /\ d' = TLCEval(Convert(m, form, d))
             /\ ty' = CASE ty = "agg:Ump" -> "agg:Bytes" [] ty = "agg:Bytes" -> "agg:Ump" [] OTHER -> ty
             /\ Put([op |-> "conv", api |-> t[1], to |-> t[2], cap |-> t[3]])
        /\ UNCHANGED <<mi, ghost, pl>>
Rebuf == /\ \E t \in {<<"from", "V", 1048576>>, <<"from", "SV", 1048576>>, <<"into", "V", 1048576>>, <<"from", "SF", 1048576>>} \union (IF InAgg THEN {} ELSE {<<"from", "ST", 1048576>>}) :
             /\ kind' = t[2] /\ cap' = IF t[2] = "SF" THEN Len(d) \div Unit(form) ELSE t[3]
             /\ Put([op |-> "rebuf", api |-> t[1], to |-> t[2], cap |-> t[3]])
         /\ UNCHANGED <<mi, ty, form, d, ghost, pl, live>>
Wrap == /\ m.fam # "ci" /\ ~(ty \in {"agg:Ump", "agg:Bytes"})
        /\ \E lvl \in {"fam", "top"} :
             /\ lvl = "fam" => ~InAgg /\ m.fam \notin {"sx7", "sx8"}
             /\ ty' = IF lvl = "fam" THEN "agg:" \o m.fam ELSE IF form = "u" THEN "agg:Ump" ELSE "agg:Bytes"
             /\ Put([op |-> "wrap", lvl |-> lvl])
        /\ UNCHANGED <<mi, form, kind, cap, d, ghost, pl, live>>
Next == live /\ Len(hist) <= Steps /\ (Changes \/ Conv \/ Rebuf \/ Wrap)
Spec == Init /\ [][Next]_vars
Survives == live => /\ (m.kind # "sysex" => Vec(m, form, d) = ghost)
                    /\ PlOf(m, form, d) = pl
Legality == live => Legal(m, form, d) /\ Accept(m, form, d) = "yes" /\ MsgLen(m, form, d) = Len(d)
Same == live /\ InAgg => Designate(ty, form, d) = m.ty
There == live /\ Convertible(m) /\ (form = "b" \/ d[1] % 16 = 0) /\ (m.kind = "sysex" => d = EncSx(m, form, SxGroup(m, form, d), SxSid(m, d), pl)) /\ Plain(m, form, d)
            => Convert(m, OtherForm(form), Convert(m, form, d)) = d
=============================================================================
