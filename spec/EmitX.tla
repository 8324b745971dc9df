-------------------------------- MODULE EmitX --------------------------------
(* C05, exhaustively: one relation of each kind over inputs of 0..MaxW columns, with every mapping of at most MaxL indices; *)
(* with Top, a context-sensitive parent on top reports the width it is given. *)
EXTENDS EmitK
CONSTANTS MaxW, MaxL, Top
VARIABLE r
Cap(S, n) == Seqs(S, n)
Ems(D) == {Dir, [m |-> "none"]} \cup {[m |-> "map", is |-> q] : q \in Cap(-1..D, MaxL)} \cup {[m |-> "map", is |-> RefsUpTo(D)]}
ReadEms(n) == {Dir} \cup {[m |-> "map", is |-> q] : q \in Cap(0..(n - 1), MaxL)}
Bases == {Read(n, Dir) : n \in 0..MaxW} \cup {Virt(1), XRead(2), X("leaf", "Alpha", 2, <<>>), Read(3, [m |-> "map", is |-> <<2>>])}
Nodes(k) ==
  CASE k = "read" -> UNION {{Read(n, e) : e \in ReadEms(n)} : n \in 0..(MaxW + 1)}
    [] k \in {"filter", "sort", "fetch"} -> UNION {{Un(k, 0, e, c) : e \in Ems(Direct(Un(k, 0, Dir, c)))} : c \in Bases}
    [] k = "proj" -> UNION {UNION {{Un(k, n, e, c) : e \in Ems(Direct(Un(k, n, Dir, c)))} : n \in 0..2} : c \in Bases}
    [] k = "agg"  -> UNION {UNION {{Un(k, n, e, c) : e \in Ems(Direct(Un(k, n, Dir, c)))} : n \in 0..8} : c \in {Read(2, Dir)}}
    [] k = "set"  -> UNION {{Bin(k, e, Read(n, Dir), Virt(n)) : e \in Ems(n)} : n \in 0..MaxW}
    [] OTHER -> UNION {UNION {{Bin(k, e, Read(n, Dir), d) : e \in Ems(Direct(Bin(k, Dir, Read(n, Dir), d)))} : d \in {Read(1, Dir), Virt(2), X("leaf", "Alpha", 1, <<>>)}} : n \in 0..MaxW}
KKinds == {"read", "set"} \cup UnKinds \cup BinKinds
OnTop(x) == IF Top THEN X("multi", "Ctx", 1, <<x, Read(1, Dir)>>) ELSE x
Init == \E k \in KKinds : r \in Nodes(k)
Next == FALSE /\ UNCHANGED r
Emit == PrintT(ToJson(Case(OnTop(r))))
=============================================================================
