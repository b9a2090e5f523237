------------------------------- MODULE MC_Feat -------------------------------
(* Every selection of features, reached by adding one feature after another.  *)
(* Checked for every header: a slice is refused until the feature of its      *)
(* family is selected, from then on the verdict is that of the whole library, *)
(* whatever else is selected; std changes nothing.  The selections that are   *)
(* built (Built) are replayed on the real code.                               *)
EXTENDS MC, Features
CONSTANTS Built, Statuses
VARIABLES sel, form, b
vars == <<sel, form, b>>
Body(n) == [i \in 1..n |-> ((7 * i) % 100) + 1]
Heads == {<<16 * t + 3, st>> \o Body(14) : t \in 0..15, st \in Statuses}
         \union {<<208, 16 + ch, x[1], x[2]>> \o Body(12) : ch \in {0, 16, 32}, x \in {<<0, 0>>, <<0, 2>>, <<0, 6>>, <<1, 1>>, <<2, 1>>, <<3, 0>>}}
         \union {<<240, st, 1, 1>> \o Body(12) : st \in {0, 1, 3, 5, 6, 16, 17, 18, 33, 34}}
Bytes == {<<240, 1, 2, 247>>, <<240, 247>>, <<144, 60, 1>>, <<192, 5>>, <<224, 1, 2>>, <<248>>, <<242, 3, 4>>, <<247>>, <<20, 1>>}
Init == sel = {} /\ \/ form = "u" /\ b \in Heads
                    \/ form = "b" /\ b \in Bytes
FP(Fs) == <<[op |-> "fparse", feats |-> Fs, form |-> form, buf |-> b]>>
FK(Fs) == <<[op |-> "fpkt", feats |-> Fs, buf |-> b]>>
Next == \E f \in AllFeatures \ sel : /\ sel' = sel \union {f}
                                     /\ UNCHANGED <<form, b>>
Spec == Init /\ [][Next]_vars
Top == IF form = "u" THEN "agg:Ump" ELSE "agg:Bytes"
Full == AcceptAny(Top, form, b)
Mine == LET t == Designate(Top, form, b) IN IF t = "none" THEN "none" ELSE FeatureOf[MsgOf[t].fam]
Export == IF sel \in Built THEN Emit(FP(sel)) /\ (form = "u" => Emit(FK(sel))) ELSE TRUE
Gate == AcceptIn(sel, Top, form, b) = IF Mine \in Closed(sel) THEN Full ELSE "no"
PGate == form = "u" => PktAcceptIn(sel, b) = IF PktFam("any", b) # "none" /\ FeatureOf[PktFam("any", b)] \in Closed(sel) THEN PktAccept("any", b) ELSE "no"
(* so a verdict changes once, when its feature is added (implied by Gate; checked step by step) *)
Grows == [][AcceptIn(sel', Top, form, b) # AcceptIn(sel, Top, form, b) => AcceptIn(sel, Top, form, b) = "no" /\ Mine \in Closed(sel') \ Closed(sel)]_vars
NoStd == AcceptIn(sel, Top, form, b) = AcceptIn(sel \ {"std"}, Top, form, b)
=============================================================================
