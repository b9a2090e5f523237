-------------------------------- MODULE Iter --------------------------------
(* The contract of an iterator: any interleaving of calls answers as the      *)
(* same calls on the list of the remaining items, also after exhaustion.      *)
(* A call is <<name, n>>; its answer is a sequence.                           *)
EXTENDS Octets

Every(s, i, n) == [k \in 1..CeilDiv(Max2(0, Len(s) - i + 1), n) |-> s[i + (k - 1) * n]]
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
Nth(s, n) == IF n < Len(s) THEN <<s[n + 1]>> ELSE <<>>

Answer(rem, c) ==
    CASE c[1] = "next" -> Nth(rem, 0)
      [] c[1] = "nth" -> Nth(rem, c[2])
      [] c[1] = "nthmax" -> <<>>
      [] c[1] = "len" -> <<Len(rem)>>
      [] c[1] = "hint" -> <<Len(rem), Len(rem)>>
      [] c[1] = "count" -> <<Len(rem)>>
      [] c[1] = "last" -> LastOf(rem)
      [] c[1] = "all" -> rem
      [] c[1] = "skipall" -> Drop(rem, c[2])
      [] c[1] = "stepall" -> Every(rem, 1, Max2(1, c[2]))
After(rem, c) ==
    CASE c[1] = "next" -> Drop(rem, 1)
      [] c[1] = "nth" -> Drop(rem, c[2] + 1)
      [] c[1] \in {"len", "hint"} -> rem
      [] OTHER -> <<>>

(* the observed answer is allowed; loose = the size hint only has to bound the number of remaining items *)
Allowed(loose, rem, c, o) ==
    /\ o[1] = "ok"
    /\ IF loose /\ c[1] = "len" THEN TRUE
       ELSE IF loose /\ c[1] = "hint" THEN o[2][1] <= Len(rem) /\ (o[2][2] = -1 \/ o[2][2] >= Len(rem))
       ELSE o[2] = Answer(rem, c)
RECURSIVE IterOk(_, _, _, _, _)
IterOk(loose, rem, calls, out, i) ==
    IF i > Len(calls) THEN Len(out) = Len(calls)
    ELSE /\ i <= Len(out)
         /\ Allowed(loose, rem, calls[i], out[i])
         /\ IterOk(loose, After(rem, calls[i]), calls, out, i + 1)
=============================================================================
