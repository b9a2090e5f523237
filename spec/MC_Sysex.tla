------------------------------ MODULE MC_Sysex ------------------------------
(* The SysEx message as an editable list: every edit from every reachable      *)
(* shape.  The code cannot depend on the payload octets, so states are        *)
(* merged by their shape (type, form, buffer, packet sizes, header values):   *)
(* the view.  Every transition of the resulting graph is exported and         *)
(* replayed on the real code.                                                 *)
EXTENDS MC
CONSTANTS Bufs,       \* kinds of buffers
          MaxLen,     \* longest payload, in packets (+ 1 octet)
          LayMax,     \* packets of irregular starting layouts
          Wide        \* TRUE: all positions and lengths around packet boundaries
VARIABLES m, form, kind, cap, d, pl, grp, sid, hist
vars == <<m, form, kind, cap, d, pl, grp, sid, hist>>
CP == SxCap(m)
Layout == IF form = "b" THEN <<Len(pl)>> ELSE LET ps == Packets(d, m.size) IN [i \in DOMAIN ps |-> Len(SxPart(m, ps[i]))]
View == <<m.ty, form, kind, cap, Layout, grp, sid>>

(* a message with the packet sizes lay *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s)))
Irregular(x, lay) == LET n == Len(lay)
                         at(i) == Sum(SubSeq(lay, 1, i - 1)) IN
    Concat([i \in 1..n |-> LET c == Ser(1 + at(i), lay[i]) IN
        IF x.fam = "sx7" THEN <<48, StatusFor(i, n) * 16 + lay[i]>> \o Pad(c, 6) ELSE <<80, StatusFor(i, n) * 16 + lay[i] + 1, 0>> \o Pad(c, 13)])
Lays(x) == LET Z == {0, 1, SxCap(x) - 1, SxCap(x)} IN UNION {[1..n -> Z] : n \in 1..LayMax}
Caps(x, f) == IF f = "u" THEN {(x.size \div 4) * k + e : k \in {1, 2} \union (IF Wide THEN {3} ELSE {}), e \in {0, 1}} ELSE {2, SxCap(x) + 2, 2 * SxCap(x) + 2}
SxTypesSet == {Types[i] : i \in {j \in DOMAIN Types : Types[j].kind = "sysex"}}
OpNew(x, f, k, c) == [op |-> "new", ty |-> x.ty, form |-> f, kind |-> k, api |-> "with", init |-> IF k = "ST" THEN <<>> ELSE [i \in 1..(c * Unit(f)) |-> 255], cap |-> c, dirt |-> 255]
Init == \E x \in SxTypesSet : \E f \in Forms(x), k \in Bufs : \E c \in (IF Growable(k) THEN {3} ELSE Caps(x, f)) :
          /\ m = x /\ form = f /\ kind = k /\ cap = c /\ grp = 0 /\ sid = 0
          /\ \/ d = New(x, f) /\ pl = <<>> /\ hist = <<OpNew(x, f, k, c)>>
             \/ \E lay \in Lays(x) :
                  /\ k \in {"SV", "ST", "V"} /\ f = "u" /\ pl = Ser(1, Sum(lay)) /\ d = Irregular(x, lay) /\ Fits(k, f, c, Len(d))
                  /\ hist = <<OpLoad(x, f, k, d, c)>>

Pos(n) == LET S == {0, 1, CP - 1, CP, CP + 1, 2 * CP - 1, 2 * CP, n - 1, n} IN (IF Wide THEN S \union {2, 2 * CP + 1, n \div 2} ELSE {0, 1, CP, n}) \intersect 0..n
Lens == IF Wide THEN {0, 1, 2, CP - 1, CP, CP + 1, 2 * CP, 2 * CP + 1} ELSE {0, 1, CP, CP + 1}
HintOf(a, b, n) == <<"exact", "none", "lower", "half", "over", "huge", "upper", "one", "halfup">>[((a + 2 * b + 5 * n) % 9) + 1]
(* the ways to write the range a..b *)
RangeOf(a, b, n) == LET z == Len(pl)
                        r == SelectSeq(<<<<"..", TRUE>>, <<"..=", b > a>>, <<"ex", a > 0>>, <<"a..", b = z>>, <<"..b", a = 0>>, <<"..=b", a = 0 /\ b > 0>>, <<"full", a = 0 /\ b = z>>>>, LAMBDA x : x[2]) IN
                    r[((a + b + n + Len(hist)) % Len(r)) + 1][1]
Op(o, a, b, n) == [op |-> o, a |-> a, b |-> b, items |-> Ser(60 + 7 * Len(hist), n), range |-> IF o = "sx_splice" THEN RangeOf(a, b, n) ELSE "..", hint |-> IF o \in {"sx_byte", "sx_append1"} THEN "exact" ELSE HintOf(a, b, n)]
EndlessOps == IF Growable(kind) THEN {}
    ELSE {[Op(o, a, b, 2) EXCEPT !.hint = h] : o \in {"sx_set", "sx_append", "sx_splice"}, h \in {"endless", "endless-none"}, a \in {0}, b \in {0, Len(pl)}}
Ops == LET n == Len(pl) IN EndlessOps \union
    {Op("sx_set", 0, 0, k) : k \in Lens} \union {Op("sx_append", 0, 0, k) : k \in Lens} \union {Op("sx_append1", 0, 0, 1)}
    \union {Op("sx_insert", a, a, k) : a \in Pos(n), k \in Lens}
    \union {Op("sx_splice", ab[1], ab[2], k) : ab \in {x \in Pos(n) \X Pos(n) : x[1] <= x[2]}, k \in Lens}
    \union {Op("sx_byte", a, a, 1) : a \in Pos(n) \ {n}}
Reads == <<OpRead, [op |-> "reparse"]>>
Edits == \E op \in Ops :
    LET r == EditRes(m, form, kind, cap, op, pl) IN
    /\ r.res \in {"ok", "err"}
    /\ Len(r.pl) <= MaxLen * CP + 1
    /\ pl' = r.pl
    /\ d' = IF op.op = "sx_byte" THEN SetByte(m, form, d, op.a, op.items[1]) ELSE EncSx(m, form, grp, sid, r.pl)
    /\ hist' = Append(hist, op)
    /\ Emit(hist' \o Reads)
    /\ UNCHANGED <<m, form, kind, cap, grp, sid>>
Heads == /\ form = "u" /\ grp = 0
         /\ \E i \in DOMAIN m.fields : LET f == m.fields[i] IN
              /\ f.k \in {"grp", "sid"}
              /\ d' = Set(m, form, d, f.n, 11)
              /\ IF f.k = "grp" THEN grp' = 11 /\ sid' = sid ELSE sid' = 11 /\ grp' = grp
              /\ hist' = Append(hist, OpSet(f.n, 11))
              /\ Emit(hist' \o Reads)
         /\ UNCHANGED <<m, form, kind, cap, pl>>
Next == Edits \/ Heads
Spec == Init /\ [][Next]_vars

IsList == Payload(m, form, d) = pl
Legality == Legal(m, form, d) /\ MsgLen(m, form, d) = Len(d) /\ Accept(m, form, d) = "yes" /\ Fits(kind, form, cap, Len(d))
Headers == form = "u" => \A i \in 1..(Len(d) \div m.size) : LET p == Packets(d, m.size)[i] IN p[1] % 16 = grp /\ (m.fam = "sx8" => p[3] = sid)
Edited == Len(hist) > 1 /\ hist[Len(hist)].op \notin {"set", "sx_byte"}
Canonical == Edited => /\ d = EncSx(m, form, grp, sid, pl) /\ Len(d) = EncSxLen(m, form, Len(pl))
                       /\ \A i \in 1..(Len(Layout) - 1) : form = "b" \/ Layout[i] = CP
                       /\ (form = "u" /\ Len(Layout) > 1 => Layout[Len(Layout)] > 0)
(* the list operations in terms of each other *)
Algebra == \A k \in Lens, a \in Pos(Len(pl)) : LET x == Ser(90, k)
                                                  n == Len(pl) IN
    /\ Splice(pl, n, n, x) = pl \o x
    /\ Splice(pl, 0, n, x) = x
    /\ \A b \in Pos(n) : a <= b => /\ Splice(pl, a, b, x) = Splice(Splice(pl, a, b, <<>>), a, a, x)
                                   /\ Len(Splice(pl, a, b, x)) = n - (b - a) + k
                                   /\ Splice(Splice(pl, a, b, x), a, a + k, SubSeq(pl, a + 1, b)) = pl
=============================================================================
