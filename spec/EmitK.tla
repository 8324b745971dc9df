-------------------------------- MODULE EmitK --------------------------------
(***************************************************************************)
(* C05.  Output columns.  Relations over trivial expressions, with every   *)
(* output mapping: identity written as a mapping, permutations, prefixes,  *)
(* duplicates, empty ones, and indices outside the direct columns.  Each   *)
(* case is a plan, its text, and the plan that text denotes (where the     *)
(* text is free of error tokens).                                          *)
(***************************************************************************)
EXTENDS Gen

TI64 == [k |-> "s", n |-> "i64", nu |-> "R"]
IntE(n) == [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> ToString(n), mw |-> 16]
Call(n) == [k |-> "call", f |-> 1, args |-> <<IntE(n)>>, ty |-> <<TI64>>]
KTbl == [urns |-> <<[ua |-> 1, ut |-> "/u"]>>, exts |-> <<[kd |-> "f", a |-> 1, u |-> 1, nm |-> "f", hs |-> FALSE, sg |-> ""]>>]
KCols(n, t) == Tab(LAMBDA i : [n |-> [id |-> t \o ToString(i)], t |-> TI64], n)
Dir == [m |-> "dir"]
Read(n, em) == Mk("read", em, <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> KCols(n, "c")])
Virt(n) == Mk("virt", Dir, <<>>, [cols |-> KCols(n, "v"), rows |-> <<Tab(LAMBDA i : IntE(i), n)>>, flt |-> <<>>])
XRead(n) == Mk("extread", Dir, <<>>, [cols |-> KCols(n, "x"), det |-> <<[xn |-> [id |-> "Alpha"], xa |-> [pos |-> <<>>, named |-> <<>>, cols |-> <<>>]]>>])
XCols(n) == Tab(LAMBDA i : [ck |-> "n", n |-> [id |-> "o" \o ToString(i)], t |-> TI64], n)
X(xt, xn, n, ins) == Mk("xrel", Dir, ins, [xt |-> xt, item |-> [xn |-> [id |-> xn], xa |-> [pos |-> <<>>, named |-> <<>>, cols |-> XCols(n)]]])
\* one-input relations
Un(k, n, em, c) ==
  CASE k = "filter" -> Mk("filter", em, <<c>>, [c |-> <<Ref(0)>>])
    [] k = "sort"   -> Mk("sort", em, <<c>>, [fs |-> <<[e |-> <<Ref(0)>>, d |-> "AscNullsLast"]>>])
    [] k = "fetch"  -> Mk("fetch", em, <<c>>, [lim |-> <<[fv |-> "e", e |-> IntE(3)]>>, off |-> <<>>])
    [] k = "proj"   -> Mk("proj", em, <<c>>, [es |-> Tab(LAMBDA i : IF i % 2 = 1 THEN IntE(i) ELSE Call(i), n)])
    [] k = "agg"    -> LET g == n % 3 IN
                       Mk("agg", em, <<c>>, [ge |-> Tab(LAMBDA i : Ref(i - 1), g),
                                             gs |-> IF n >= 6 /\ g = 2 THEN << <<0, 1>>, <<1>>, <<>> >> ELSE <<Tab(LAMBDA i : i - 1, g)>>,
                                             ms |-> Tab(LAMBDA i : <<Call(i)>>, (n \div 3) % 3)])
    [] k = "xs"     -> X("single", "Ctx", n, <<c>>)
    [] OTHER        -> X("multi", "Ctx", n, <<c>>)
Bin(k, em, c, d) ==
  CASE k = "cross" -> Mk("cross", em, <<c, d>>, NoX)
    [] k = "set"   -> Mk("set", em, <<c, d>>, [op |-> "UnionAll"])
    [] OTHER       -> Mk("join", em, <<c, d>>, [jt |-> k, c |-> <<Ref(0)>>, pf |-> <<>>])
BinKinds == {"cross"} \cup Range(JoinTypes)
UnKinds == {"filter", "sort", "fetch", "proj", "agg"}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
\* direct columns of agg[n]
PlanOf(r) == [ver |-> <<>>, tbl |-> KTbl, roots |-> <<[rk |-> "rel", rel |-> r]>>]
Case(r) ==
  LET p == PlanOf(r)
      d == TLCEval(PrintDoc(p, DefaultOpts))
      v == ValidDoc(d)
  IN [c |-> "fmt", ast |-> p, opts |-> DefaultOpts, text |-> ToText(DocLines(d, Canon), "  "), back |-> IF v THEN <<MeanDoc(d)>> ELSE <<>>]
=============================================================================
