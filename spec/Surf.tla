-------------------------------- MODULE Surf --------------------------------
(***************************************************************************)
(* Surface documents the formatter would not write itself.                 *)
(*  Variant(d, s)  another way to write the same document: named arguments *)
(*     in another order, addenda in another order, URN anchors added,      *)
(*     declaration groups split and permuted, "+>" for "=>".               *)
(*  Mutant(d, s)  a small change anywhere in the document.  Valid/Mean say *)
(*     whether and what the result denotes.                                *)
(***************************************************************************)
EXTENDS Gen

Rot(q, n) == IF q = <<>> THEN q ELSE [i \in 1..Len(q) |-> q[((i + n) % Len(q)) + 1]]
Rev(q)    == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

RECURSIVE VarT(_, _, _)
VarT(t, s, tbl) ==
  CASE t.k = "list"   -> [t EXCEPT !.e = VarT(@, Sub(s, 1), tbl)]
    [] t.k = "map"    -> [t EXCEPT !.key = VarT(@, Sub(s, 1), tbl), !.val = VarT(@, Sub(s, 2), tbl)]
    [] t.k = "struct" -> [t EXCEPT !.es = MapI(LAMBDA i, x : VarT(x, Sub(s, i), tbl), @)]
    [] t.k = "udtS"   -> LET a == ResolveTy(tbl, t) IN
                         [t EXCEPT !.an = IF Flip(s, 1, 30) THEN a ELSE @,
                                   !.ur = IF Flip(s, 2, 30) THEN Lookup(tbl, "t", a).u ELSE -1,
                                   !.ps = MapI(LAMBDA i, p : IF "pt" \in DOMAIN p THEN [pt |-> VarT(p.pt, Sub(s, i), tbl)] ELSE p, @)]
    [] OTHER -> t
VarFn(f, s, tbl) ==
  LET a == ResolveFn(tbl, f)
      e == Lookup(tbl, "f", a)
      full == Flip(s, 3, 30)
      g == [f EXCEPT !.an = IF Flip(s, 1, 30) THEN a ELSE @,
                     !.ur = IF Flip(s, 2, 30) THEN e.u ELSE -1]
  IN IF full /\ e.hs THEN [g EXCEPT !.hs = TRUE, !.sg = e.sg] ELSE g
RECURSIVE VarE(_, _, _)
VarE(e, s, tbl) ==
  CASE e.k = "lit"  -> [e EXCEPT !.ty = MapI(LAMBDA i, t : VarT(t, Sub(s, i), tbl), @)]
    [] e.k = "call" -> [e EXCEPT !.fn = VarFn(@, s, tbl), !.args = MapI(LAMBDA i, a : VarE(a, Sub(s, i), tbl), @),
                                 !.ty = MapI(LAMBDA i, t : VarT(t, Sub(s, 50), tbl), @)]
    [] e.k = "cast" -> [e EXCEPT !.e = VarE(@, Sub(s, 1), tbl), !.to = VarT(@, Sub(s, 2), tbl)]
    [] e.k = "ite"  -> [e EXCEPT !.br = MapI(LAMBDA i, b : [c |-> VarE(b.c, Sub(s, i), tbl), t |-> VarE(b.t, Sub(s, 50 + i), tbl)], @),
                                 !.els = VarE(@, Sub(s, 99), tbl)]
    [] OTHER -> e
RECURSIVE VarXV(_, _, _)
VarXV(v, s, tbl) ==
  CASE v.xk = "tup"  -> [v EXCEPT !.xs = MapI(LAMBDA i, w : VarXV(w, Sub(s, i), tbl), @)]
    [] v.xk = "expr" -> [v EXCEPT !.e = VarE(@, s, tbl)]
    [] OTHER -> v
VarXA(a, s, tbl) ==
  [pos   |-> MapI(LAMBDA i, v : VarXV(v, Sub(s, i), tbl), a.pos),
   named |-> Rot(MapI(LAMBDA i, q : [n |-> q.n, v |-> VarXV(q.v, Sub(s, 20 + i), tbl)], a.named), R(s, 1, 3)),
   cols  |-> MapI(LAMBDA i, c : IF c.ck = "n" THEN [c EXCEPT !.t = VarT(@, Sub(s, 40 + i), tbl)]
                                ELSE [c EXCEPT !.e = VarE(@, Sub(s, 40 + i), tbl)], a.cols)]
VarAdds(q, s, tbl) ==
  LET v  == MapI(LAMBDA i, a : [a EXCEPT !.xa = VarXA(@, Sub(s, i), tbl)], q)
      op == FilterQ(LAMBDA a : a.at = "Opt", v)
      ot == FilterQ(LAMBDA a : a.at # "Opt", v)
      k  == R(s, 1, Len(op) + 1)
  IN SubSeq(op, 1, k) \o (IF Flip(s, 2, 50) THEN ot ELSE Rev(ot)) \o SubSeq(op, k + 1, Len(op))
VarItems(q, s, tbl) == MapI(LAMBDA i, x : CASE x.it = "e" -> [x EXCEPT !.e = VarE(@, Sub(s, i), tbl)]
                                            [] x.it = "c" -> [x EXCEPT !.t = VarT(@, Sub(s, i), tbl)]
                                            [] OTHER -> x, q)
RECURSIVE VarR(_, _, _)
VarR(r, s, tbl) ==
  LET E(e, i) == VarE(e, Sub(s, 300 + i), tbl)
      Es(q, j) == MapI(LAMBDA i, e : VarE(e, Sub(s, j + i), tbl), q)
      x == CASE r.k = "read"   -> [r.x EXCEPT !.ar = IF Flip(s, 1, 30) THEN "+>" ELSE @]
             [] r.k = "virt"   -> [r.x EXCEPT !.rows = MapI(LAMBDA i, q : Es(q, 10 * i), @), !.flt = Es(@, 200)]
             [] r.k = "filter" -> [r.x EXCEPT !.c = E(@, 1)]
             [] r.k = "agg"    -> r.x
             [] r.k = "sort"   -> [r.x EXCEPT !.fs = MapI(LAMBDA i, f : [f EXCEPT !.e = E(@, i)], @)]
             [] r.k = "fetch"  -> [r.x EXCEPT !.fa = Rot(@, R(s, 2, 2))]
             [] r.k = "join"   -> [r.x EXCEPT !.c = E(@, 1), !.pf = Es(@, 200)]
             [] r.k = "xrel"   -> [r.x EXCEPT !.xa = VarXA(@, Sub(s, 5), tbl), !.hc = IF r.x.xa.cols = <<>> /\ Flip(s, 3, 50) THEN FALSE ELSE @]
             [] OTHER -> r.x
  IN [r EXCEPT !.x = x, !.adds = VarAdds(@, Sub(s, 7), tbl),
               !.out = IF r.k = "agg" THEN @ ELSE VarItems(@, Sub(s, 8), tbl),
               !.ins = MapI(LAMBDA i, c : VarR(c, Sub(s, 400 + i), tbl), @)]
\* split each group in two, then move the non-URN groups around
SplitG(g, s) == LET k == R(s, 1, Len(g.ents) + 1) IN
                IF Flip(s, 2, 60) \/ g.ents = <<>> THEN <<g>> ELSE <<[g EXCEPT !.ents = SubSeq(@, 1, k)], [g EXCEPT !.ents = SubSeq(@, k + 1, Len(@))]>>
VarGroups(gs, s) ==
  LET u == FilterQ(LAMBDA g : g.sub = "URNs:", gs)
      o == FilterQ(LAMBDA g : g.sub # "URNs:", gs)
      R1(g, i) == IF Flip(s, 30 + i, 50) THEN [g EXCEPT !.ents = Rev(@)] ELSE g
      a == Flat(MapI(LAMBDA i, g : SplitG(R1(g, i), Sub(s, i)), u))
      b == Flat(MapI(LAMBDA i, g : SplitG(R1(g, 5 + i), Sub(s, 9 + i)), o))
  IN a \o (IF Flip(s, 3, 50) THEN Rev(b) ELSE Rot(b, R(s, 4, 3)))
Variant(d, s) ==
  LET tbl == DocTbl(d) IN
  [d EXCEPT !.gs = VarGroups(@, Sub(s, 1)),
            !.roots = MapI(LAMBDA i, r : [r EXCEPT !.rel = VarR(@, Sub(s, 1 + i), tbl)], @)]

----------------------------------------------------------------------------
(* Mutants.                                                                *)
SimpleT(s) == [k |-> "s", n |-> PickQ(s, 1, SimpleNames), nu |-> GenNu(s)]
RECURSIVE MutT(_, _, _)
MutT(t, s, tbl) ==
  LET r == R(s, 1, 10) IN
  CASE r = 0 -> SimpleT(s)
    [] r = 1 -> [k |-> "prec", n |-> PickQ(s, 2, PrecNames), nu |-> GenNu(s), p |-> PickQ(s, 3, <<0, 1, 6, 9, 12, 13, 38, 2147483647>>)]
    [] r = 2 -> [k |-> "list", nu |-> GenNu(s), e |-> t]
    [] r = 3 -> [k |-> "udtS", nu |-> "R", nm |-> PickQ(s, 4, <<"nosuch", "point", "json", "geo">>), an |-> PickQ(s, 5, <<-1, -1, 1, 2, 3, 77>>),
                 ur |-> PickQ(s, 6, <<-1, -1, 1, 2, 99>>), ps |-> <<>>]
    [] OTHER ->
       CASE t.k = "list"   -> [t EXCEPT !.e = MutT(@, Sub(s, 1), tbl)]
         [] t.k = "map"    -> IF Flip(s, 2, 50) THEN [t EXCEPT !.key = MutT(@, Sub(s, 1), tbl)] ELSE [t EXCEPT !.val = MutT(@, Sub(s, 1), tbl)]
         [] t.k = "struct" -> IF t.es = <<>> \/ Flip(s, 2, 30) THEN [t EXCEPT !.es = Append(@, SimpleT(s))]
                              ELSE [t EXCEPT !.es[R(s, 3, Len(t.es)) + 1] = MutT(@, Sub(s, 1), tbl)]
         [] t.k = "prec"   -> [t EXCEPT !.p = PickQ(s, 3, <<0, 1, 3, 6, 9, 12, 13>>)]
         [] t.k = "udtS"   -> CASE Flip(s, 4, 40) -> [t EXCEPT !.an = PickQ(s, 5, AnchorPool)]
                                [] Flip(s, 6, 50) -> [t EXCEPT !.ur = PickQ(s, 5, AnchorPool)]
                                [] OTHER -> [t EXCEPT !.nm = PickQ(s, 5, TyNames)]
         [] OTHER -> [t EXCEPT !.nu = IF @ = "N" THEN "R" ELSE "N"]
AnyTok(s) ==
  LET r == R(s, 1, 8) IN
  CASE r = 0 -> LET v == PickQ(s, 2, IntPool \o BigInts) IN [tk |-> "int", num |-> v.num, mw |-> v.mw]
    [] r = 1 -> LET v == PickQ(s, 2, FltPool) IN [tk |-> "flt", num |-> v.num, mw |-> v.mw]
    [] r = 2 -> [tk |-> "bool", b |-> Flip(s, 3, 50)]
    [] r = 3 -> [tk |-> "null"]
    [] r = 4 -> [tk |-> "date", y |-> PickQ(s, 2, <<1970, 2000, 1900, 2024, 0, -4, 9999, 12345>>), mo |-> PickQ(s, 3, <<1, 2, 12, 13, 0, 4, 2, 2>>), da |-> PickQ(s, 4, <<1, 28, 29, 30, 31, 32, 0>>)]
    [] r = 5 -> [tk |-> "time", h |-> PickQ(s, 2, <<0, 12, 23, 24>>), mi |-> PickQ(s, 3, <<0, 59, 60>>), se |-> PickQ(s, 4, <<0, 30, 59, 60>>),
                 f |-> PickQ(s, 5, <<0, 1, 5>>), fd |-> PickQ(s, 6, <<0, 1, 3, 6, 9>>)]
    [] r = 6 -> [tk |-> "ts", dt |-> [tk |-> "date", y |-> PickQ(s, 2, <<1970, 1969, 2024, 2023, 1600>>), mo |-> PickQ(s, 3, <<1, 2, 6>>), da |-> PickQ(s, 4, <<1, 29, 30>>)],
                 tm |-> [tk |-> "time", h |-> PickQ(s, 5, <<0, 23>>), mi |-> 59, se |-> PickQ(s, 6, <<0, 59>>), f |-> PickQ(s, 7, <<0, 7>>), fd |-> PickQ(s, 8, <<0, 3, 6, 9>>)]]
    [] OTHER -> [tk |-> "dur", parts |-> PickQ(s, 2, << <<[n |-> 1, un |-> "d"]>>, <<[n |-> -2, un |-> "s"], [n |-> 5, un |-> "ms"]>>,
                   <<[n |-> 3, un |-> "d"], [n |-> 4, un |-> "us"]>>, <<[n |-> 7, un |-> "ns"]>>, <<[n |-> 7, un |-> "ps"]>>, <<[n |-> 1, un |-> "d"], [n |-> 2, un |-> "s"], [n |-> 0, un |-> "us"]>> >>)]
TokWithF(t) == IF t.tk = "time" /\ t.fd = 0 THEN [t EXCEPT !.f = 0]
               ELSE IF t.tk = "ts" /\ t.tm.fd = 0 THEN [t EXCEPT !.tm.f = 0] ELSE t
\* quoted text with one of these types is read as the typed value, not as a string
TextTypes == {"date", "time", "timestamp"}
GenTok(s) == TokWithF(AnyTok(s))
\* The types a token of each shape could plausibly carry.
TypFor(s, tbl) ==
  LET r == R(s, 1, 10) IN
  CASE r = 0 -> <<>>
    [] r \in 1..5 -> <<SimpleT(s)>>
    [] r \in 6..8 -> <<[k |-> "prec", n |-> PickQ(s, 2, PrecNames), nu |-> GenNu(s), p |-> PickQ(s, 3, <<0, 3, 6, 9, 12, 1, 13>>)]>>
    [] OTHER -> <<[k |-> "list", nu |-> GenNu(s), e |-> SimpleT(s)]>>
\* a quoted token read without a type (or as a string) is a string: outside this generator
Ambiguous(tok, ty) == tok.tk \in {"date", "time", "ts", "dur"} /\ (ty = <<>> \/ (ty[1].k = "s" /\ ty[1].n = "string"))
MutLit(e, s, tbl) ==
  LET r == R(s, 2, 4)
      tok == IF r = 0 THEN GenTok(Sub(s, 1)) ELSE e.tok
      ty  == IF r \in {0, 1} THEN TypFor(Sub(s, 2), tbl) ELSE IF r = 2 /\ e.ty # <<>> THEN <<MutT(e.ty[1], Sub(s, 3), tbl)>> ELSE <<SimpleT(s)>>
  IN IF Ambiguous(tok, ty) THEN e ELSE [e EXCEPT !.tok = tok, !.ty = ty]
MutFn(f, s, tbl) ==
  LET r == R(s, 3, 6) IN
  CASE r = 0 -> [f EXCEPT !.nm = PickQ(s, 4, FnNames)]
    [] r = 1 -> [f EXCEPT !.an = PickQ(s, 4, AnchorPool)]
    [] r = 2 -> [f EXCEPT !.ur = PickQ(s, 4, AnchorPool)]
    [] r = 3 -> [f EXCEPT !.hs = TRUE, !.sg = PickQ(s, 4, Sigs)]
    [] r = 4 -> [f EXCEPT !.hs = FALSE, !.sg = ""]
    [] OTHER -> [f EXCEPT !.an = -1]
RECURSIVE MutE(_, _, _)
MutE(e, s, tbl) ==
  LET r == R(s, 1, 12) IN
  IF r = 0 THEN Ref(PickQ(s, 2, <<0, 1, 2, 9, 100>>))
  ELSE IF r = 1 THEN PrintE(GenE(Sub(s, 1), 1, 3, tbl), tbl, DefaultOpts)
  ELSE CASE e.k = "ref"  -> Ref(PickQ(s, 2, <<0, 1, 2, 3, 50>>))
         [] e.k = "lit"  -> MutLit(e, s, tbl)
         [] e.k = "call" -> CASE r \in 2..5 -> [e EXCEPT !.fn = MutFn(@, s, tbl)]
                              [] r \in 6..7 -> [e EXCEPT !.ty = <<MutT(@[1], Sub(s, 2), tbl)>>]
                              [] r = 8 \/ e.args = <<>> -> [e EXCEPT !.args = Append(@, Ref(0))]
                              [] r = 9 -> [e EXCEPT !.args = Rev(@)]
                              [] OTHER -> [e EXCEPT !.args[R(s, 5, Len(e.args)) + 1] = MutE(@, Sub(s, 3), tbl)]
         [] e.k = "cast" -> CASE r \in 2..4 -> [e EXCEPT !.fb = (@ + 1) % 3]
                              [] r \in 5..7 -> [e EXCEPT !.to = MutT(@, Sub(s, 2), tbl)]
                              [] OTHER -> [e EXCEPT !.e = MutE(@, Sub(s, 3), tbl)]
         [] e.k = "ite"  -> CASE r \in 2..5 -> [e EXCEPT !.els = MutE(@, Sub(s, 3), tbl)]
                              [] r \in 6..8 -> [e EXCEPT !.br[1].c = MutE(@, Sub(s, 3), tbl)]
                              [] r = 9 -> [e EXCEPT !.br = Append(@, @[1])]
                              [] OTHER -> [e EXCEPT !.br = Rev(@)]
         [] OTHER -> e
MutXV(v, s, tbl) == IF v.xk = "expr" THEN [v EXCEPT !.e = MutE(@, s, tbl)] ELSE PrintXV(GenXV(s, 1, 2, tbl), tbl, DefaultOpts)
MutXA(a, s, tbl, rel) ==
  LET r == R(s, 1, 8) IN
  CASE r = 0 -> [a EXCEPT !.pos = Append(@, [xk |-> "int", num |-> "5"])]
    [] r = 1 /\ a.pos # <<>> -> [a EXCEPT !.pos[1] = MutXV(@, Sub(s, 1), tbl)]
    [] r = 2 -> [a EXCEPT !.named = Append(@, [n |-> PickQ(s, 2, ArgNames), v |-> [xk |-> "null"]])]
    [] r = 3 -> [a EXCEPT !.named = Append(@, [n |-> [id |-> "bogus"], v |-> [xk |-> "bool", b |-> TRUE]])]
    [] r = 4 /\ a.named # <<>> -> [a EXCEPT !.named = Append(@, @[1])]
    [] r = 5 /\ a.pos # <<>> -> [a EXCEPT !.pos = Tail(@)]
    [] rel /\ a.cols # <<>> -> [a EXCEPT !.cols = IF Flip(s, 3, 50) THEN Rev(@) ELSE Append(@, @[1])]
    [] OTHER -> [a EXCEPT !.pos = Rev(@)]
NoName == [id |-> "Gamma"]         \* never registered by the harness
RefOut(r) == r.k \in {"filter", "sort", "fetch", "join", "cross", "set"}
MutOut(r, s, tbl) ==
  LET q == R(s, 1, 6)
      n == Len(r.out)
      it == IF RefOut(r) \/ r.k \in {"proj", "agg"} THEN EI(Ref(PickQ(s, 2, <<0, 1, 2, 7>>)))
            ELSE [it |-> "c", n |-> GenName(Sub(s, 1)), t |-> SimpleT(s)]
  IN CASE q = 0 \/ n = 0 -> [r EXCEPT !.out = Append(@, it)]
       [] q = 1 -> [r EXCEPT !.out = Front(@)]
       [] q = 2 -> [r EXCEPT !.out = Rev(@)]
       [] q = 3 -> [r EXCEPT !.out[R(s, 3, n) + 1] = it]
       [] q = 4 /\ r.out[1].it = "e" -> [r EXCEPT !.out[R(s, 3, n) + 1] = EI(MutE(r.out[R(s, 3, n) + 1].e, Sub(s, 2), tbl))]
       [] q = 5 /\ r.out[1].it = "e" -> [r EXCEPT !.out[R(s, 3, n) + 1] = EI(PrintE(GenE(Sub(s, 4), 2, 2, tbl), tbl, DefaultOpts))]
       [] OTHER -> [r EXCEPT !.out = @ \o @]
MutIns(r, s) ==
  LET q == R(s, 1, 4) IN
  CASE r.ins = <<>> -> [r EXCEPT !.ins = <<[k |-> "read", out |-> <<>>, adds |-> <<>>, ins |-> <<>>, x |-> [tn |-> <<[id |-> "t"]>>, ar |-> "=>", refs |-> <<>>]]>>]
    [] q = 0 -> [r EXCEPT !.ins = Tail(@)]
    [] q = 1 -> [r EXCEPT !.ins = Append(@, @[1])]
    [] OTHER -> [r EXCEPT !.ins = Rev(@)]
MutAdds(r, s, tbl) ==
  LET q  == R(s, 1, 6)
      it == PrintXA(GenXA(Sub(s, 1), 2, tbl, FALSE), tbl, DefaultOpts)
      A(at, nm) == [at |-> at, xn |-> nm, xa |-> it]
  IN CASE q = 0 -> [r EXCEPT !.adds = Append(@, A("Enh", PickQ(s, 2, XNames)))]
       [] q = 1 -> [r EXCEPT !.adds = Append(@, A("Opt", PickQ(s, 2, XNames)))]
       [] q = 2 -> [r EXCEPT !.adds = Append(@, A("Ext", PickQ(s, 2, XNames)))]
       [] q = 3 -> [r EXCEPT !.adds = Append(@, A(PickQ(s, 3, <<"Enh", "Opt">>), NoName))]
       [] r.adds = <<>> -> [r EXCEPT !.adds = Append(@, A("Opt", PickQ(s, 2, XNames)))]
       [] q = 4 -> [r EXCEPT !.adds = Tail(@)]
       [] OTHER -> [r EXCEPT !.adds[R(s, 4, Len(r.adds)) + 1].xa = MutXA(@, Sub(s, 2), tbl, FALSE)]
\* fetch values given as a plain number in place of an expression
FetchArgM(s, tbl) == [fk |-> PickQ(s, 1, <<"limit", "offset">>), v |-> [fv |-> "e", e |-> PrintE(GenLit(Sub(s, 1), tbl), tbl, VerboseOpts)]]
MutX(r, s, tbl) ==
  LET q == R(s, 1, 4) IN
  CASE r.k = "read"   -> CASE q = 0 -> [r EXCEPT !.x.tn = Append(@, GenName(Sub(s, 1)))]
                           [] q = 1 /\ Len(r.x.tn) > 1 -> [r EXCEPT !.x.tn = Tail(@)]
                           [] q = 2 -> [r EXCEPT !.x.ar = "+>", !.x.refs = <<Tab(LAMBDA i : R(s, 10 + i, 4), R(s, 3, 4))>>]
                           [] OTHER -> [r EXCEPT !.x.ar = "+>", !.x.refs = <<>>]
    [] r.k = "virt"   -> CASE q = 0 -> [r EXCEPT !.x.rows = Append(@, <<>>)]
                           [] q = 1 /\ r.x.rows # <<>> -> [r EXCEPT !.x.rows[1] = Append(@, PrintE(GenE(Sub(s, 1), 2, 2, tbl), tbl, DefaultOpts))]
                           [] q = 2 -> [r EXCEPT !.x.flt = <<PrintE(GenE(Sub(s, 1), 2, 2, tbl), tbl, DefaultOpts)>>]
                           [] OTHER -> [r EXCEPT !.x.flt = <<>>]
    [] r.k = "filter" -> [r EXCEPT !.x.c = MutE(@, Sub(s, 1), tbl)]
    [] r.k = "agg"    -> CASE q = 0 -> [r EXCEPT !.x.gs = Append(@, <<Ref(R(s, 2, 4))>>)]
                           [] q = 1 -> [r EXCEPT !.x.gs = Append(@, @[1])]
                           [] q = 2 /\ Len(r.x.gs) > 1 -> [r EXCEPT !.x.gs = Tail(@)]
                           [] OTHER -> IF r.x.gs[1] = <<>> THEN [r EXCEPT !.x.gs[1] = <<Ref(0), Ref(0)>>]
                                       ELSE [r EXCEPT !.x.gs[1][1] = MutE(@, Sub(s, 1), tbl)]
    [] r.k = "sort"   -> CASE r.x.fs = <<>> \/ q = 0 -> [r EXCEPT !.x.fs = Append(@, [e |-> Ref(0), d |-> PickQ(s, 2, SortDirs \o <<"Asc", "AscNullsFirs", "ascnullsfirst">>)])]
                           [] q = 1 -> [r EXCEPT !.x.fs = Rev(@)]
                           [] q = 2 -> [r EXCEPT !.x.fs[1].d = PickQ(s, 2, SortDirs \o <<"Clustered", "AscNullsFirstx">>)]
                           [] OTHER -> [r EXCEPT !.x.fs[1].e = MutE(@, Sub(s, 1), tbl)]
    [] r.k = "fetch"  -> CASE q = 0 /\ r.x.fa # <<>> -> [r EXCEPT !.x.fa = Append(@, @[1])]
                           [] q = 1 -> [r EXCEPT !.x.fa = <<FetchArgM(Sub(s, 1), tbl)>>]
                           [] q = 2 -> [r EXCEPT !.x.fa = <<[fk |-> PickQ(s, 2, <<"limit", "offset">>), v |-> [fv |-> "n", num |-> PickQ(s, 3, IntPool).num, mw |-> PickQ(s, 3, IntPool).mw]]>>]
                           [] OTHER -> [r EXCEPT !.x.fa = Rev(@)]
    [] r.k = "join"   -> CASE q = 0 -> [r EXCEPT !.x.jt = PickQ(s, 2, JoinTypes)]
                           [] q = 1 -> [r EXCEPT !.x.jt = PickQ(s, 2, <<"Full", "LeftOuter", "Innerr", "inner", "Unspecified">>)]
                           [] q = 2 -> [r EXCEPT !.x.c = MutE(@, Sub(s, 1), tbl)]
                           [] OTHER -> [r EXCEPT !.x.pf = IF @ = <<>> THEN <<Ref(0)>> ELSE <<>>]
    [] r.k = "set"    -> [r EXCEPT !.x.op = IF q < 3 THEN PickQ(s, 2, SetOps) ELSE PickQ(s, 2, <<"Union", "UnionAllx", "Minus", "unionall">>)]
    [] r.k = "xrel"   -> CASE q = 0 -> [r EXCEPT !.x.xt = PickQ(s, 2, <<"leaf", "single", "multi">>)]
                           [] q = 1 -> [r EXCEPT !.x.xn = PickQ(s, 2, Append(XNames, NoName))]
                           [] OTHER -> [r EXCEPT !.x.xa = MutXA(@, Sub(s, 1), tbl, TRUE)]
    [] OTHER -> MutOut(r, s, tbl)
RECURSIVE MutR(_, _, _)
MutR(r, s, tbl) ==
  LET q == R(s, 1, 20) IN
  CASE r.ins # <<>> /\ q < 9 -> LET i == R(s, 2, Len(r.ins)) + 1 IN [r EXCEPT !.ins[i] = MutR(@, Sub(s, 1), tbl)]
    [] q < 11 -> MutIns(r, Sub(s, 2))
    [] q < 13 -> MutAdds(r, Sub(s, 3), tbl)
    [] q < 16 /\ r.k # "xrel" -> MutOut(r, Sub(s, 4), tbl)
    [] OTHER -> MutX(r, Sub(s, 5), tbl)
Mutant(d, s) ==
  IF d.roots = <<>> THEN d
  ELSE LET i == R(s, 1, Len(d.roots)) + 1
           tbl == DocTbl(d) IN
       IF Flip(s, 2, 4) /\ d.roots[i].rk = "root" THEN [d EXCEPT !.roots[i].names = Append(@, GenName(Sub(s, 3)))]
       ELSE [d EXCEPT !.roots[i].rel = MutR(@, Sub(s, 4), tbl)]
=============================================================================
