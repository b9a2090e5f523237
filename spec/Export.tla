------------------------------- MODULE Export -------------------------------
(* Prints the catalogue for the script generators, so that they hold no layout of their own. *)
EXTENDS Catalogue, Json, TLC
VARIABLE x
Init == x = 0 /\ PrintT(<<"TYPES", ToJson(Types)>>)
Spec == Init /\ [][FALSE]_x
=============================================================================
