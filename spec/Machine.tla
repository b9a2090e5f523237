------------------------------ MODULE Machine ------------------------------
(* The state machine of one message object: a message type, a buffer and its  *)
(* capacity, and the effect of every operation on it.  The operators are      *)
(* shared by the exhaustive models and the trace validator.       *)
EXTENDS Codec, Iter

Growable(k) == k \in {"V", "MV", "SV"}
Unit(form) == IF form = "u" THEN 4 ELSE 1
(* n octets fit the buffer of kind k with a capacity of cap units *)
Fits(k, form, cap, n) == Growable(k) \/ n <= cap * Unit(form)

(* -------------------------------------------------------- construction --- *)
NewOk(m, form, k, cap) == Fits(k, form, cap, MinLen(m, form))

(* ------------------------------------------------------- payload edits --- *)
(* the half open range of payload positions an edit replaces *)
Lo(op, pl) == CASE op.op = "sx_set" -> 0
                [] op.op \in {"sx_append", "sx_append1"} -> Len(pl)
                [] op.op = "sx_insert" -> op.a
                [] op.op = "sx_byte" -> op.a
                [] op.range \in {"full", "..b", "..=b"} -> 0
                [] OTHER -> op.a
Hi(op, pl) == CASE op.op \in {"sx_set", "sx_append", "sx_append1"} -> Len(pl)
                [] op.op = "sx_insert" -> op.a
                [] op.op = "sx_byte" -> op.a + 1
                [] op.range \in {"full", "a.."} -> Len(pl)
                [] OTHER -> op.b
EditDefined(op, pl) == Lo(op, pl) <= Hi(op, pl) /\ Hi(op, pl) <= Len(pl)
Edit(op, pl) == Splice(pl, Lo(op, pl), Hi(op, pl), op.items)
(* data without an end never fit (and never get into a buffer that grows) *)
Endless(op) == IF "hint" \in DOMAIN op THEN op.hint \in {"endless", "endless-half", "endless-none"} ELSE FALSE
(* outcome of an edit of payload pl: the result and the payload afterwards *)
EditRes(m, form, k, cap, op, pl) ==
    IF ~EditDefined(op, pl) THEN [res |-> "panic", pl |-> pl]
    ELSE IF op.op # "sx_byte" /\ Endless(op) THEN [res |-> "err", pl |-> <<>>]
    ELSE IF op.op = "sx_byte" \/ Fits(k, form, cap, EncSxLen(m, form, Len(Edit(op, pl)))) THEN [res |-> "ok", pl |-> Edit(op, pl)]
    ELSE [res |-> "err", pl |-> <<>>]

(* ----------------------------------------------------------------- text -- *)
TextRes(m, k, cap, d, tx) == LET e == EncText(m, Take(d, 16), tx) IN
    IF Fits(k, "u", cap, Len(e)) THEN [res |-> "ok", d |-> e] ELSE [res |-> "err", d |-> d]

(* ----------------------------------------------------------- conversion -- *)
(* d carries nothing but its fields: converting it loses nothing *)
RECURSIVE Refill(_, _, _, _, _)
Refill(m, form, src, dst, i) == IF i > Len(m.fields) THEN dst
    ELSE LET f == m.fields[i] IN
         Refill(m, form, src, IF f.o >= Shift(m, form) THEN WriteAt(dst, f, f.o - Shift(m, form), ReadAt(src, f, f.o - Shift(m, form))) ELSE dst, i + 1)
Plain(m, form, d) == IF m.kind = "sysex" THEN TRUE ELSE Refill(m, form, d, New(m, form), 1) = d
OtherForm(form) == IF form = "u" THEN "b" ELSE "u"
ConvLen(m, form, d) == LET f2 == OtherForm(form) IN
    IF m.kind = "sysex" THEN EncSxLen(m, f2, Len(Payload(m, form, d))) ELSE MinLen(m, f2)
Convertible(m) == m.bsize > 0 /\ m.kind # "ci"
SameFields(m, form, d, form2, d2) ==
    \A i \in DOMAIN m.fields : LET f == m.fields[i] IN
        f.n # "group" /\ f.o >= Shift(m, "b") => ReadAt(d2, f, f.o - Shift(m, form2)) = ReadAt(d, f, f.o - Shift(m, form))

(* the items an iterator of a message runs over *)
Items(m, form, d, what) == CASE what = "pl" -> Payload(m, form, d)
                             [] what = "pk" -> PacketsOf(m, form, d)
                             [] what = "tx" -> TextOf(m, d)
=============================================================================
