------------------------------- MODULE MC_Iter ------------------------------
(* Iterators, at two levels: a cursor that walks packet by packet (how a      *)
(* reader of packets has to work) and the list of the remaining items (the    *)
(* contract).  Checked: the cursor refines the list under every sequence of   *)
(* calls.  Exported: every call in every reachable position of every shape.   *)
EXTENDS MC
CONSTANTS MaxPk, MaxCalls, Whats
VARIABLES m, form, what, d, groups, p, o, rem, ans, calls
vars == <<m, form, what, d, groups, p, o, rem, ans, calls>>
View == <<m.ty, form, what, d, p, o, Len(rem), ans = <<>>, Len(calls) >= MaxCalls>>
SxU(x, lay) == LET n == Len(lay)
                   at(i) == 1 + 17 * (i - 1) IN
    Concat([i \in 1..n |-> LET c == Ser(at(i), lay[i]) IN
        IF x.fam = "sx7" THEN <<48, StatusFor(i, n) * 16 + lay[i]>> \o Pad(c, 6) ELSE <<80, StatusFor(i, n) * 16 + lay[i] + 1, 0>> \o Pad(c, 13)])
Lays(c) == UNION {[1..n -> {0, 1, c - 1, c}] : n \in 1..MaxPk}
One(s) == [i \in DOMAIN s |-> <<s[i]>>]
(* the items, grouped as they lie in the packets *)
GroupsOf(x, f, dd, w) == CASE w = "pk" -> <<PacketsOf(x, f, dd)>>
                           [] w = "tx" -> LET ps == Packets(dd, 16) IN [i \in DOMAIN ps |-> Without(Drop(ps[i], TextOff(x)), 0)]
                           [] f = "b" -> <<SubSeq(dd, 2, Len(dd) - 1)>>
                           [] OTHER -> LET ps == Packets(dd, x.size) IN [i \in DOMAIN ps |-> SxPart(x, ps[i])]
Sx == {Types[i] : i \in {j \in DOMAIN Types : Types[j].kind = "sysex"}}
TextSet == {Types[i] : i \in {j \in DOMAIN Types : Types[j].ty \in {"flex::Lyrics", "stream::EndpointName", "stream::FunctionBlockName"}}}
FixSet == {Types[i] : i \in {j \in DOMAIN Types : Types[j].ty \in {"cv1::NoteOn", "cv2::NoteOn", "flex::SetTempo", "sys::TimingClock", "stream::StartOfClip", "util::NoOp"}}}
Start(x, f, w, dd) == m = x /\ form = f /\ what = w /\ d = dd /\ groups = GroupsOf(x, f, dd, w) /\ p = 1 /\ o = 0 /\ rem = Items(x, f, dd, w) /\ ans = <<>> /\ calls = <<>>
Init == \E w \in Whats :
          \/ w \in {"pl", "pk"} /\ \E x \in Sx : \E lay \in Lays(SxCap(x)) : Start(x, "u", w, SxU(x, lay))
          \/ w = "pl" /\ \E x \in Sx, n \in 0..7 : "b" \in Forms(x) /\ Start(x, "b", w, EncSx(x, "b", 0, 0, Ser(1, n)))
          \/ w \in {"tx", "pk"} /\ \E x \in TextSet : \E n \in {0, 1, TextCap(x) - 1, TextCap(x), TextCap(x) + 1, 2 * TextCap(x), 2 * TextCap(x) + 1} : Start(x, "u", w, EncText(x, New(x, "u"), Ser(33, n)))
          \/ w = "tx" /\ \E x \in TextSet, holes \in {{1}, {2}, {1, 2}, {3, 5, 6}, 1..9} : LET dd == EncText(x, New(x, "u"), Ser(33, 2 * TextCap(x))) IN
                            Start(x, "u", w, [i \in DOMAIN dd |-> IF i > 16 /\ i - 16 - TextOff(x) \in holes THEN 0 ELSE dd[i]])
          \/ w = "pk" /\ \E x \in FixSet : Start(x, "u", w, New(x, "u"))
(* the cursor: packet p, o items of it consumed *)
RECURSIVE Skip(_, _, _)
Skip(pp, oo, n) == IF pp > Len(groups) THEN <<pp, 0>>
                   ELSE IF oo + n < Len(groups[pp]) THEN <<pp, oo + n>>
                   ELSE Skip(pp + 1, 0, n - (Len(groups[pp]) - oo))
RECURSIVE Count(_, _)
Count(pp, oo) == IF pp > Len(groups) THEN 0 ELSE Len(groups[pp]) - oo + Count(pp + 1, 0)
CurNth(n) == LET c == Skip(p, o, n) IN IF c[1] > Len(groups) THEN <<>> ELSE <<groups[c[1]][c[2] + 1]>>
CurAnswer(c) == CASE c[1] = "next" -> CurNth(0) [] c[1] = "nth" -> CurNth(c[2]) [] c[1] = "len" -> <<Count(p, o)>> [] c[1] = "hint" -> <<Count(p, o), Count(p, o)>>
                  [] c[1] = "count" -> <<Count(p, o)>> [] c[1] = "last" -> IF Count(p, o) = 0 THEN <<>> ELSE CurNth(Count(p, o) - 1)
CurAfter(c) == CASE c[1] = "next" -> Skip(p, o, 1) [] c[1] = "nth" -> Skip(p, o, c[2] + 1) [] c[1] \in {"len", "hint"} -> <<p, o>> [] OTHER -> <<Len(groups) + 1, 0>>
Ns == {0, 1, 2, Len(rem) - 1, Len(rem), Len(rem) + 1} \union (IF form = "u" /\ m.kind = "sysex" /\ what = "pl" THEN {SxCap(m) - 1, SxCap(m), SxCap(m) + 1} ELSE {})
Calls == {<<"next", 0>>, <<"len", 0>>, <<"hint", 0>>} \union {<<"nth", n>> : n \in Ns \intersect Nat}
Finals == {<<"count", 0>>, <<"last", 0>>, <<"all", 0>>, <<"skipall", 1>>, <<"skipall", Len(rem)>>, <<"stepall", 2>>, <<"stepall", 3>>, <<"nthmax", 0>>}
Script(cs) == <<OpLoad(m, form, "S", d, Len(d) \div Unit(form)), [op |-> "iter", what |-> what, calls |-> cs]>>
Call(c) == /\ Len(calls) < MaxCalls
           /\ ans' = <<Answer(rem, c), CurAnswer(c)>>
           /\ rem' = After(rem, c)
           /\ LET n == CurAfter(c) IN p' = n[1] /\ o' = n[2]
           /\ calls' = Append(calls, c)
           /\ Emit(Script(calls' \o <<<<"len", 0>>, <<"hint", 0>>, <<"next", 0>>, <<"len", 0>>>>))
           /\ UNCHANGED <<m, form, what, d, groups>>
Ends == /\ Len(calls) < MaxCalls + 1 /\ calls # <<>> /\ ans # <<>> /\ calls[Len(calls)][1] \in {"next", "nth"}
        /\ \A c \in Finals : Emit(Script(Append(calls, c)))
        /\ ans' = <<>> /\ UNCHANGED <<m, form, what, d, groups, p, o, rem, calls>>
Next == (\E c \in Calls : Call(c)) \/ Ends
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_, _)
Flat(pp, oo) == IF pp > Len(groups) THEN <<>> ELSE SubSeq(groups[pp], oo + 1, Len(groups[pp])) \o Flat(pp + 1, 0)
Refines == Flat(p, o) = rem
SameAnswer == ans = <<>> \/ ans[1] = ans[2]
Exhausted == rem = <<>> => Answer(rem, <<"next", 0>>) = <<>> /\ After(rem, <<"next", 0>>) = <<>>
=============================================================================
