-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* C04.  Building the relation tree from indented lines: a stack machine.  *)
(* A behaviour is a sequence of lines [d |-> depth, k |-> kind]; the state *)
(* holds the nodes built so far and the path from the current root to the  *)
(* last line.  Each line carries its own number, so that the text names    *)
(* every node and addendum uniquely.                                       *)
(***************************************************************************)
EXTENDS Doc

AddKinds == {"Enh", "Opt", "Ext"}
I64 == [k |-> "s", n |-> "i64", nu |-> "R"]
IntLit(n) == [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> ToString(n), mw |-> 16]

T0 == [nodes |-> <<>>, path |-> <<>>, roots |-> <<>>, err |-> 0]
Node(k, n) == [k |-> k, n |-> n, ad |-> <<>>, ch |-> <<>>]
\* the effect of line number n
TStep(s, l, n) ==
  IF s.err # 0 THEN s
  ELSE IF l.k = "bad" THEN [s EXCEPT !.err = n]
  ELSE IF l.k \in AddKinds
  THEN IF l.d = 0 \/ l.d > Len(s.path) THEN [s EXCEPT !.err = n]
       ELSE LET p == s.path[l.d] IN
            IF s.nodes[p].ch # <<>> THEN [s EXCEPT !.err = n]
            ELSE [s EXCEPT !.nodes[p].ad = Append(@, [at |-> l.k, n |-> n])]
  ELSE LET new == Len(s.nodes) + 1 IN
       IF (l.k = "root" /\ l.d > 0) \/ l.d > Len(s.path) THEN [s EXCEPT !.err = n]
       ELSE IF l.d = 0 THEN [s EXCEPT !.nodes = Append(@, Node(l.k, n)), !.path = <<new>>, !.roots = Append(@, new)]
       ELSE [s EXCEPT !.nodes = Append([@ EXCEPT ![s.path[l.d]].ch = Append(@, new)], Node(l.k, n)),
                      !.path = Append(SubSeq(@, 1, l.d), new)]

\* -- the finished tree -----------------------------------------------------
TArity(k) == CASE k \in {"root", "filter", "xsingle", "proj", "sort", "fetch", "agg"} -> {1} [] k \in {"read", "virt", "extread", "xleaf"} -> {0}
               [] k \in {"cross", "join"} -> {2} [] k = "set" -> 2..1000 [] OTHER -> 0..1000
Ith(q, at, i) == LET f == FilterQ(LAMBDA a : a.at = at, q) IN IF Len(f) >= i THEN {f[i].n} ELSE {}
XRels == {"xleaf", "xsingle", "xmulti"}
Faults(x) ==
  (IF Len(x.ch) \in TArity(x.k) THEN {} ELSE {x.n})
  \cup (CASE x.k \in XRels \cup {"root"} -> IF x.ad = <<>> THEN {} ELSE {x.ad[1].n}
          [] x.k = "extread" -> (IF Ith(x.ad, "Ext", 1) = {} THEN {x.n} ELSE {}) \cup Ith(x.ad, "Ext", 2) \cup Ith(x.ad, "Enh", 2)
          [] OTHER -> Ith(x.ad, "Ext", 1) \cup Ith(x.ad, "Enh", 2))
AllFaults(s) == UNION {Faults(s.nodes[i]) : i \in 1..Len(s.nodes)}
Item(n) == [xn |-> [id |-> "Alpha"], xa |-> [pos |-> <<[xk |-> "int", num |-> ToString(n)]>>, named |-> <<>>, cols |-> <<>>]]
ItemsOf(x, at) == Map(LAMBDA a : Item(a.n), FilterQ(LAMBDA a : a.at = at, x.ad))
TCol(n) == [n |-> [id |-> "c" \o ToString(n)], t |-> I64]
Fst == [m |-> "map", is |-> <<0>>]
RECURSIVE TRel(_, _)
TRel(s, i) ==
  LET x == s.nodes[i]
      ins == Map(LAMBDA j : TRel(s, j), x.ch)
      B(k, em, y) == [k |-> k, em |-> em, enh |-> ItemsOf(x, "Enh"), opt |-> ItemsOf(x, "Opt"), ins |-> ins, x |-> y]
      D == [m |-> "dir"]
      X(xt) == B("xrel", D, [xt |-> xt, item |-> [xn |-> [id |-> "Beta"], xa |-> [pos |-> <<[xk |-> "int", num |-> ToString(x.n)]>>, named |-> <<>>, cols |-> <<[ck |-> "n", n |-> [id |-> "a"], t |-> I64]>>]]])
  IN CASE x.k = "read"    -> B("read", D, [tn |-> <<[id |-> "t" \o ToString(x.n)]>>, cols |-> <<TCol(x.n)>>])
       [] x.k = "virt"    -> B("virt", D, [cols |-> <<TCol(x.n)>>, rows |-> << <<IntLit(x.n)>>, <<IntLit(x.n)>>, <<IntLit(1)>> >>, flt |-> <<>>])
       [] x.k = "extread" -> B("extread", D, [cols |-> <<TCol(x.n)>>, det |-> ItemsOf(x, "Ext")])
       [] x.k = "filter"  -> B("filter", D, [c |-> <<IntLit(x.n)>>])
       [] x.k = "proj"    -> B("proj", D, [es |-> <<>>])
       [] x.k = "sort"    -> B("sort", D, [fs |-> <<[e |-> <<IntLit(x.n)>>, d |-> "AscNullsLast"]>>])
       [] x.k = "fetch"   -> B("fetch", D, [lim |-> <<[fv |-> "e", e |-> IntLit(x.n)]>>, off |-> <<>>])
       [] x.k = "agg"     -> B("agg", D, [ge |-> <<IntLit(x.n)>>, gs |-> << <<0>> >>, ms |-> <<>>])
       [] x.k = "cross"   -> B("cross", Fst, NoX)
       [] x.k = "join"    -> B("join", Fst, [jt |-> "Inner", c |-> <<IntLit(x.n)>>, pf |-> <<>>])
       [] x.k = "set"     -> B("set", D, [op |-> "UnionAll"])
       [] x.k = "xleaf"   -> X("leaf") [] x.k = "xsingle" -> X("single") [] OTHER -> X("multi")
TRoot(s, i) == LET x == s.nodes[i] IN
               IF x.k = "root" THEN [rk |-> "root", names |-> <<[id |-> "r" \o ToString(x.n)]>>, rel |-> TRel(s, x.ch[1])]
               ELSE [rk |-> "rel", rel |-> TRel(s, i)]
TPlan(s) == [ver |-> <<>>, tbl |-> [urns |-> <<>>, exts |-> <<>>], roots |-> Map(LAMBDA i : TRoot(s, i), s.roots)]
\* the text of line n
TText(k, n) ==
  CASE k = "root" -> <<"Root[r", n, "]">>
    [] k = "read" -> <<"Read[t", n, " => c", n, ":i64]">>
    [] k = "virt" -> <<"Read:Virtual[(", n, "), (", n, "), (1) => c", n, ":i64]">>
    [] k = "extread" -> <<"Read:Extension[c", n, ":i64]">>
    [] k = "filter" -> <<"Filter[", n, " => $0]">>
    [] k = "proj" -> "Project[$0]"
    [] k = "sort" -> <<"Sort[(", n, ", &AscNullsLast) => $0]">>
    [] k = "fetch" -> <<"Fetch[limit=", n, " => $0]">>
    [] k = "agg" -> <<"Aggregate[", n, " => ", n, "]">>
    [] k = "cross" -> "Cross[$0]"
    [] k = "join" -> <<"Join[&Inner, ", n, " => $0]">>
    [] k = "set" -> "Set[&UnionAll => $0]"
    [] k = "xleaf" -> <<"ExtensionLeaf:Beta[", n, " => a:i64]">>
    [] k = "xsingle" -> <<"ExtensionSingle:Beta[", n, " => a:i64]">>
    [] k = "xmulti" -> <<"ExtensionMulti:Beta[", n, " => a:i64]">>
    [] k = "bad" -> <<"Filtre[", n, " => $0]">>
    [] OTHER -> <<"+ ", k, ":Alpha[", n, "]">>
\* every node sits one level below its parent, and parents come first
TreeInv(s) == s.err # 0 \/ \A i \in 1..Len(s.nodes) : \A j \in 1..Len(s.nodes[i].ch) :
                s.nodes[i].ch[j] > i /\ (j > 1 => s.nodes[i].ch[j] > s.nodes[i].ch[j - 1])
TCaseAfter(pad, s, q) ==
  LET F == IF s.err # 0 THEN {s.err} ELSE AllFaults(s)
      mk == IF Cardinality(F) = 1 THEN CHOOSE n \in F : TRUE ELSE 0
      text == <<"=== Plan\n", Rep("\n", pad), MapI(LAMBDA i, l : <<IF i = mk THEN [mark |-> 1] ELSE "", Rep("  ", l.d), TText(l.k, i), "\n">>, q)>>
  IN IF F = {} THEN LET p == TPlan(s) IN [c |-> "doc", ok |-> <<p>>, text |-> text, canon |-> Canonical(p, DefaultOpts)]
     ELSE [c |-> "doc", ok |-> <<>>, text |-> text]
TCase(s, q) == TCaseAfter(0, s, q)
=============================================================================
