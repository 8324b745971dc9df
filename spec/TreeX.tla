-------------------------------- MODULE TreeX --------------------------------
(* C04, exhaustively: every sequence of at most MaxLen lines over Kinds and 0..MaxD. *)
EXTENDS Tree
CONSTANTS KindSet, MaxLen, MaxD
VARIABLES lines, st
KS == CASE KindSet = "all" -> {"root", "read", "virt", "extread", "filter", "proj", "sort", "fetch", "agg", "cross", "join", "set", "xleaf", "xsingle", "xmulti", "Enh", "Opt", "Ext", "bad"}
        [] KindSet = "mix" -> {"root", "read", "extread", "filter", "cross", "xmulti", "Enh", "Opt", "Ext"}
        [] KindSet = "shape" -> {"root", "read", "filter", "cross", "set"}
        [] OTHER -> {"read", "filter", "xmulti", "Enh"}
Init == lines = <<>> /\ st = T0
Next == /\ Len(lines) < MaxLen /\ st.err = 0
        /\ \E d \in 0..MaxD, k \in KS : lines' = Append(lines, [d |-> d, k |-> k]) /\ st' = TStep(st, [d |-> d, k |-> k], Len(lines) + 1)
Inv  == TreeInv(st)
Emit == PrintT(ToJson(TCase(st, lines)))
=============================================================================
