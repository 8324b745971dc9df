-------------------------------- MODULE CompX --------------------------------
(***************************************************************************)
(* C07.  Compound names.  A stored name is a base name, and after its      *)
(* first colon a signature, which may be empty.  A written name without a  *)
(* colon matches every stored name with that base; with a colon it matches *)
(* only the very same name.  Every stored name up to MaxN characters       *)
(* against every written name up to MaxP.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS MaxN, MaxP
VARIABLES name, written

Chars == {97, 98, 58, 233}
Colon == 58
Seqs(k) == UNION {[1..j -> Chars] : j \in 0..k}
Colons(x) == {i \in 1..Len(x) : x[i] = Colon}
Signed(x) == Colons(x) # {}
BaseOf(x) == IF Signed(x) THEN SubSeq(x, 1, (CHOOSE i \in Colons(x) : \A j \in Colons(x) : i <= j) - 1) ELSE x
Matches(x, w) == IF Signed(w) THEN x = w ELSE BaseOf(x) = w

\* a name always matches itself and its base; a signed pattern picks out one name
Laws == /\ Matches(name, name) /\ Matches(name, BaseOf(name))
        /\ Signed(written) /\ Matches(name, written) => name = written
        /\ Matches(name, written) => BaseOf(name) = BaseOf(written)

Init == name \in Seqs(MaxN) /\ written = <<>>
Next == Len(written) < MaxP /\ \E c \in Chars : written' = Append(written, c) /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, written>>
Emit == PrintT(ToJson([c |-> "cpd", n |-> name, w |-> written, base |-> BaseOf(name), sig |-> Signed(name), m |-> Matches(name, written)]))
=============================================================================
