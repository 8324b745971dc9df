-------------------------------- MODULE EmitW --------------------------------
(***************************************************************************)
(* C05, wide and many.  Mode "wide": one relation of each kind over inputs *)
(* of many columns, around the widths where one and two digits, bytes and  *)
(* small tables end.  Mode "agg": every aggregation of at most MaxG keys   *)
(* under every list of at most two (or some three) grouping sets.          *)
(***************************************************************************)
EXTENDS EmitK
CONSTANTS Mode, Ws, MaxG
VARIABLE r
\* mappings over D direct columns
WEms(D) == {Dir, [m |-> "none"], [m |-> "map", is |-> RefsUpTo(D)], [m |-> "map", is |-> Tab(LAMBDA i : D - i, D)], [m |-> "map", is |-> <<D>>]}
           \cup (IF D = 0 THEN {} ELSE
                 {[m |-> "map", is |-> RefsUpTo(D - 1)], [m |-> "map", is |-> <<D - 1>>], [m |-> "map", is |-> Append(RefsUpTo(D), D - 1)],
                  [m |-> "map", is |-> Append(RefsUpTo(D - 1), 0)], [m |-> "map", is |-> Tab(LAMBDA i : i % D, D)]})
Over(rel) == {[rel EXCEPT !.em = e] : e \in WEms(Direct(rel))}
AggN(g, n, c) == Mk("agg", Dir, <<c>>, [ge |-> Tab(LAMBDA i : Ref(i - 1), g), gs |-> <<RefsUpTo(g)>>, ms |-> Tab(LAMBDA i : <<Call(i)>>, n)])
WNodes(w) ==
  LET c == Read(w, Dir) IN
  {Read(w, e) : e \in {y \in WEms(w) : y.m # "none" /\ (y.m = "map" => \A i \in Range(y.is) : i < w)}}
  \cup {Virt(w), XRead(w), X("leaf", "Alpha", w, <<>>)}
  \cup UNION {Over(Un(k, 0, Dir, c)) : k \in {"filter", "sort", "fetch"}}
  \cup UNION {Over(Un("proj", n, Dir, c)) : n \in {0, 1, 3}}
  \cup Over(Un("proj", w, Dir, Read(1, Dir))) \cup Over(Un("proj", w, Dir, Read(0, Dir)))
  \cup Over(AggN(w, 1, c)) \cup Over(AggN(1, w, Read(1, Dir))) \cup Over(AggN(0, w, c))
  \cup UNION {Over(Bin(k, Dir, c, Read(n, Dir))) : k \in BinKinds, n \in {0, 1, 2}}
  \cup UNION {Over(Bin(k, Dir, Read(2, Dir), c)) : k \in BinKinds}
  \cup Over(Bin("set", Dir, c, Virt(w)))
  \cup Over(Mk("set", Dir, <<c, Read(w, Dir), Virt(w)>>, [op |-> "UnionDistinct"]))
  \cup {X("single", "Ctx", w, <<c>>), X("multi", "Ctx", 1, <<c, Read(w, Dir), c>>)}
\* -- aggregations
Key(i) == CASE i = 1 -> Ref(1) [] i = 2 -> Call(7) [] i = 3 -> Ref(0) [] OTHER -> IntE(i)
Inj(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
GSets(g) == {q \in Seqs(0..(g - 1), g) : Inj(q)} \cup (IF g = 0 THEN {} ELSE {<<0, 0>>})
GLists(g) == LET S == GSets(g) IN {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
             \cup {<<a, b, a>> : a, b \in {q \in S : Len(q) <= 1}} \cup {<<a, b, <<>> >> : a, b \in {q \in S : Len(q) = 2}}
AEms(D) == {Dir, [m |-> "map", is |-> <<>>], [m |-> "map", is |-> RefsUpTo(D)], [m |-> "map", is |-> Tab(LAMBDA i : D - i, D)], [m |-> "map", is |-> RefsUpTo(D - 1)], [m |-> "map", is |-> IF D > 1 THEN <<D - 1, 0>> ELSE <<>>]}
Aggs == UNION {UNION {UNION {
           {Mk("agg", e, <<Read(2, Dir)>>, [ge |-> Tab(Key, g), gs |-> q, ms |-> Tab(LAMBDA i : <<Call(i)>>, n)]) : e \in AEms(g + n)}
         : q \in GLists(g)} : n \in 0..2} : g \in 0..MaxG}
Init == IF Mode = "wide" THEN \E w \in Ws : \E x \in WNodes(w) : r \in {x, X("multi", "Ctx", 1, <<x, Read(1, Dir)>>)} ELSE r \in Aggs
Next == FALSE /\ UNCHANGED r
Emit == PrintT(ToJson(Case(r)))
=============================================================================
