------------------------------- MODULE Degrade -------------------------------
(***************************************************************************)
(* C08.  Plans with parts the text form cannot show.  A damage pass walks  *)
(* a supported plan and, with probability Rate at each place, replaces the *)
(* part by something unrepresentable of every kind the protobuf schema     *)
(* allows there.  The specification says where the error tokens stand, how *)
(* many errors are reported, and that everything else is still shown, for  *)
(* any output options.                                                     *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS Lo, Hi, Depth, Rate, Only
VARIABLE seed
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16

\* Only = "all", or the one class of damage to inflict
Hit(s, k, cls) == (Only \in {"all", cls}) /\ Flip(s, k, Rate)
Gone(b) == [k |-> "xgone", b |-> b]
\* -- types ---------------------------------------------------------------------
RECURSIVE DT(_, _)
DParam(p, s) == IF Hit(s, 1, "type") THEN PickQ(s, 2, <<[pbad |-> "Parameter", how |-> "none"], [pbad |-> "Parameter", how |-> "bool"], [pbad |-> "Parameter", how |-> "null"],
                                                    [pbad |-> "Parameter", how |-> "str"], [pbad |-> "Parameter", how |-> "enum"]>>)
                ELSE IF "pt" \in DOMAIN p THEN [pt |-> DT(p.pt, Sub(s, 3))] ELSE p
DT(tt, ss) ==
  LET t == TLCEval(tt)  s == TLCEval(ss) IN
  IF Hit(s, 1, "type")
  THEN LET r == R(s, 2, 8) IN
       CASE r \in 0..1 -> [t EXCEPT !.nu = "U"]
         [] r = 2 -> [k |-> "udt", nu |-> GenNu(s), a |-> 777, ps |-> <<[pi |-> 3]>>]
         [] r = 3 -> [k |-> "len", n |-> PickQ(s, 3, <<"varchar", "fixedchar", "fixedbinary">>), nu |-> GenNu(s), p |-> R(s, 4, 300)]
         [] r = 4 -> [k |-> "dec", nu |-> GenNu(s), p |-> 1 + R(s, 3, 38), sc |-> R(s, 4, 10)]
         [] r = 5 -> t @@ [tv |-> PickQ(s, 3, <<1, 2, 3, 888>>)]
         [] r = 6 -> (CASE t.k = "list" -> [t EXCEPT !.e = [k |-> "tgone"]] [] t.k = "map" -> [t EXCEPT !.val = [k |-> "tgone"]]
                       [] OTHER -> [k |-> "tbad", b |-> "Type", how |-> "none"])
         [] OTHER -> PickQ(s, 3, <<[k |-> "tbad", b |-> "Type", how |-> "none"], [k |-> "tbad", b |-> "Type", how |-> "alias"], [k |-> "tbad", b |-> "Type", how |-> "func"],
                                   [k |-> "udref", a |-> PickQ(s, 4, <<1, 2, 3, 777>>)]>>)
  ELSE CASE t.k = "list"   -> [t EXCEPT !.e = DT(t.e, Sub(s, 5))]
         [] t.k = "map"    -> [t EXCEPT !.key = DT(t.key, Sub(s, 6)), !.val = DT(t.val, Sub(s, 7))]
         [] t.k = "struct" -> [t EXCEPT !.es = MapI(LAMBDA i, x : DT(x, Sub(s, 8 + i)), t.es)]
         [] t.k = "udt"    -> [t EXCEPT !.ps = MapI(LAMBDA i, x : DParam(x, Sub(s, 20 + i)), t.ps)]
         [] OTHER -> t
\* -- literals --------------------------------------------------------------------
BadLits == <<[lk |-> "lnone"], [lk |-> "raw", rk |-> "i8", num |-> "128"], [lk |-> "raw", rk |-> "i8", num |-> "-129"], [lk |-> "raw", rk |-> "i16", num |-> "32768"],
             [lk |-> "raw", rk |-> "i16", num |-> "-40000"],
             [lk |-> "raw", rk |-> "date", num |-> "2147483647"], [lk |-> "raw", rk |-> "date", num |-> "-2147483648"], [lk |-> "raw", rk |-> "time", num |-> "86400000000"], [lk |-> "raw", rk |-> "time", num |-> "-1"],
             [lk |-> "raw", rk |-> "timestamp", num |-> "9223372036854775807"],
             [lk |-> "raw", rk |-> "precisiontime", num |-> "86400", p |-> 0], [lk |-> "raw", rk |-> "precisiontime", num |-> "5", p |-> 5], [lk |-> "raw", rk |-> "precisiontimestamp", num |-> "5", p |-> 13],
             [lk |-> "raw", rk |-> "precisiontimestamptz", num |-> "9223372036854775807", p |-> 3], [lk |-> "raw", rk |-> "precisiontimestamp", num |-> "-9223372036854775808", p |-> 0],
             [lk |-> "raw", rk |-> "precisiontimestamptz", num |-> "1", p |-> -1],
             [lk |-> "nonfin", w |-> "fp64", num |-> "nan"], [lk |-> "nonfin", w |-> "fp32", num |-> "inf"], [lk |-> "nonfin", w |-> "fp64", num |-> "-inf"],
             [lk |-> "iday", dd |-> 1, ss |-> 2, sub |-> 3, p |-> -1], [lk |-> "iday", dd |-> 1, ss |-> 2, sub |-> 3, p |-> 5], [lk |-> "iday", dd |-> 1, ss |-> 2, sub |-> 3, p |-> 0],
             [lk |-> "iday", dd |-> 3650001, ss |-> 0, sub |-> 0, p |-> 6], [lk |-> "iday", dd |-> 3650000, ss |-> 86400, sub |-> 0, p |-> 6], [lk |-> "iday", dd |-> 0, ss |-> 0, sub |-> 1000, p |-> 3],
             [lk |-> "iday", dd |-> 0, ss |-> 0, sub |-> -1000000, p |-> 6], [lk |-> "iday", dd |-> -4000000, ss |-> 0, sub |-> 5000, p |-> 3],
             [lk |-> "ptime", s |-> 3661, f |-> 500, p |-> 12, ps |-> 7], [lk |-> "ptime", s |-> 86399, f |-> 999999999, p |-> 12, ps |-> 999],
             [lk |-> "pts", d |-> 59, s |-> 1, f |-> 0, p |-> 12, ps |-> 1], [lk |-> "pts", d |-> -1, s |-> 86399, f |-> 999999999, p |-> 12, ps |-> 0], [lk |-> "ptstz", d |-> 0, s |-> 0, f |-> 123456789, p |-> 12, ps |-> 500],
             [lk |-> "raw", rk |-> "precisiontime", num |-> "-1", p |-> 12], [lk |-> "raw", rk |-> "precisiontime", num |-> "86400000000000000", p |-> 12], [lk |-> "raw", rk |-> "precisiontime", num |-> "-1", p |-> 3],
             [lk |-> "bin", bs |-> <<0, 255, 16>>], [lk |-> "bin", bs |-> <<>>]>>
UnLits == <<"iyear", "tstz", "uuid", "dec", "fixedchar", "varchar", "fixedbin", "list", "emptylist", "map", "struct", "udt">>
DL(l, s) ==
  IF Hit(s, 1, "lit")
  THEN IF l.lk # "null" /\ Flip(s, 8, 25) THEN l @@ [tv |-> PickQ(s, 6, <<1, 2, 3, 888>>)]
       ELSE IF Flip(s, 2, 30) THEN [k |-> "lit", nb |-> Flip(s, 3, 30), lk |-> "lun", uk |-> PickQ(s, 4, UnLits)]
       ELSE LET b == PickQ(s, 4, BadLits) IN [k |-> "lit", nb |-> Flip(s, 3, 30)] @@ b
                 @@ (IF "num" \in DOMAIN b THEN (IF b.num = "nan" THEN [tag |-> s] ELSE [lk |-> b.lk]) ELSE [lk |-> b.lk])      \* not-a-number differs from itself: no two alike
  ELSE IF l.lk = "null" THEN [l EXCEPT !.nty = DT(l.nty, Sub(s, 5))] ELSE l
\* -- expressions --------------------------------------------------------------------
BadExprs == <<"empty", "switch", "singular", "multi", "window", "subquery", "nested", "enum", "dynparam", "refnoseg", "refmap", "reflist", "refchild", "refempty", "refmask", "refnoroot", "refouter", "refexpr">>
BadE(s) == [k |-> "xbad", b |-> "Expression", how |-> PickQ(s, 41, BadExprs)]
RECURSIVE DE(_, _)
DArg(a, s) == IF Hit(s, 1, "expr") THEN PickQ(s, 2, <<[k |-> "xbad", b |-> "ArgType", arghow |-> "none"], [k |-> "xraw", tx |-> "&YEAR", arghow |-> "enum"], [k |-> "xraw", tx |-> "i64", arghow |-> "type"]>>) ELSE DE(a, Sub(s, 3))
DCall(ee, ss) == LET e == TLCEval(ee)  s == TLCEval(ss) IN [e EXCEPT !.f = IF Hit(s, 4, "anchor") THEN 777 ELSE e.f, !.args = MapI(LAMBDA i, a : DArg(a, Sub(s, 10 + i)), e.args),
                         !.ty = IF Hit(s, 5, "expr") THEN <<>> ELSE Map(LAMBDA t : DT(t, Sub(s, 6)), e.ty)]
                         @@ (IF Hit(s, 7, "expr") THEN [opts |-> Tab(LAMBDA i : [n |-> PickQ(s, 80 + i, <<"overflow", "rounding">>), ps |-> PickQ(s, 90 + i, << <<>>, <<"SILENT">>, <<"">>, <<"", "SILENT">>, <<"ERROR", "SILENT", "X">> >>)], 1 + R(s, 8, 2)), depr |-> R(s, 9, 2)] ELSE [k |-> "call"])
DE(ee, ss) ==
  LET e == TLCEval(ee)  s == TLCEval(ss) IN
  IF Hit(s, 1, "expr") THEN BadE(s)
  ELSE CASE e.k = "lit" -> DL(e, Sub(s, 2))
         [] e.k = "call" -> DCall(e, Sub(s, 3))
         [] e.k = "cast" -> [e EXCEPT !.e = IF Hit(s, 4, "expr") THEN Gone("Cast") ELSE DE(e.e, Sub(s, 5)),
                                      !.to = IF Hit(s, 6, "expr") THEN [k |-> "tgone"] ELSE DT(e.to, Sub(s, 7)),
                                      !.fb = IF Hit(s, 8, "enum") THEN PickQ(s, 9, <<9, -1, 3>>) ELSE e.fb]
         [] e.k = "ite" -> [e EXCEPT !.br = MapI(LAMBDA i, b : [c |-> IF Hit(s, 50 + i, "expr") THEN Gone("IfThen") ELSE DE(b.c, Sub(s, 20 + i)),
                                                               t |-> IF Hit(s, 60 + i, "expr") THEN Gone("IfThen") ELSE DE(b.t, Sub(s, 30 + i))], e.br),
                                     !.els = IF Hit(s, 9, "expr") THEN Gone("IfThen") ELSE DE(e.els, Sub(s, 8))]
         [] OTHER -> e
DEs(q, s) == MapI(LAMBDA i, e : DE(e, Sub(s, i)), q)
DOpt(q, s, cls) == IF Hit(s, 1, cls) THEN <<>> ELSE DEs(q, s)
\* -- extensions ------------------------------------------------------------------------
BadEnums == <<"", "1A", "A B", "A.B", "A]", "&A", "-", "A\n", "\"A\"">>
RECURSIVE DXV(_, _)
DXV(vv, ss) == LET v == TLCEval(vv)  s == TLCEval(ss) IN
             IF Hit(s, 1, "ext") THEN (IF v.xk = "enum" THEN [v EXCEPT !.en = PickQ(s, 2, BadEnums)] @@ [eb |-> 1] ELSE [xk |-> "xerr", how |-> PickQ(s, 2, <<"err", "nan", "inf">>)])
             ELSE CASE v.xk = "tup" -> [v EXCEPT !.xs = MapI(LAMBDA i, x : DXV(x, Sub(s, i)), v.xs)]
                    [] v.xk = "expr" -> [v EXCEPT !.e = DE(v.e, Sub(s, 3))]
                    [] OTHER -> v
DXA(aa, ss) == LET a == TLCEval(aa)  s == TLCEval(ss) IN [pos |-> MapI(LAMBDA i, v : DXV(v, Sub(s, i)), a.pos), named |-> MapI(LAMBDA i, q : [q EXCEPT !.v = DXV(q.v, Sub(s, 20 + i))], a.named),
              cols |-> MapI(LAMBDA i, c : IF c.ck = "n" THEN [c EXCEPT !.t = DT(c.t, Sub(s, 40 + i))] ELSE [c EXCEPT !.e = DE(c.e, Sub(s, 60 + i))], a.cols)]
DItem(ii, ss, rel) ==
  LET it == TLCEval(ii)  s == TLCEval(ss) IN
  IF Hit(s, 1, "ext") THEN [xu |-> "extension", how |-> PickQ(s, 2, IF rel THEN <<"unknown", "empty", "badbytes", "otherns">> ELSE <<"unknown", "empty", "badbytes", "otherns", "cols">>)]
  ELSE [it EXCEPT !.xa = DXA(it.xa, Sub(s, 3))]
\* -- relations -----------------------------------------------------------------------------
Unsup(s) == [k |-> "unsup", how |-> PickQ(s, 95, <<"none", "write", "ddl", "update", "hashjoin", "mergejoin", "nlj", "window", "exchange", "expand", "reference">>)]
DEm(em, s, w) ==
  IF ~Hit(s, 1, "emit") THEN em
  ELSE CASE R(s, 2, 3) = 0 -> [m |-> "none"] [] R(s, 2, 3) = 1 -> [m |-> "nocommon"]
         [] OTHER -> [m |-> "map", is |-> (IF em.m = "map" THEN em.is ELSE <<>>) \o <<w + R(s, 3, 3), IF w > 0 THEN 0 ELSE 5, PickQ(s, 4, <<-1, 2147483647, -7>>)>>]
DCols(cols, s) == MapI(LAMBDA i, c : [c EXCEPT !.t = DT(c.t, Sub(s, i))], cols)
               \o (IF Hit(s, 90, "schema") THEN Tab(LAMBDA i : [n |-> [id |-> "extra"], tbadc |-> "Type"], 1 + R(s, 91, 2))
                   ELSE IF Hit(s, 92, "schema") THEN Tab(LAMBDA i : [nobs |-> "Name", t |-> [k |-> "s", n |-> "i64", nu |-> "R"]], 1 + R(s, 93, 2)) ELSE <<>>)
\* a limit or offset below zero, as a number or as a literal
DCount(q, s) == IF Hit(s, 1, "field")
                THEN (IF Flip(s, 2, 50) THEN [fv |-> "n", num |-> PickQ(s, 3, <<"-2", "-9223372036854775808">>)]
                      ELSE [fv |-> "e", e |-> [k |-> "lit", lk |-> "int", nb |-> Flip(s, 4, 30), w |-> "i64", num |-> PickQ(s, 3, <<"-1", "-5", "-9223372036854775808">>), mw |-> 64]])
                ELSE [q EXCEPT !.e = DE(q.e, Sub(s, 5))]
RECURSIVE DR(_, _)
DIns(ins, s, opt) ==      \* opt: a missing input is a gap the proto can have
  MapI(LAMBDA i, c : IF opt /\ Hit(s, i, "input") THEN [k |-> "gone"] ELSE DR(c, Sub(s, 20 + i)), ins)
DR(rr, ss) ==
  LET r == TLCEval(rr)  s == TLCEval(ss) IN
  IF Hit(s, 1, "rel") THEN Unsup(s)
  ELSE
  LET b0 == TLCEval([r EXCEPT !.enh = MapI(LAMBDA i, x : DItem(x, Sub(s, 2), FALSE), r.enh), !.opt = MapI(LAMBDA i, x : DItem(x, Sub(s, 3 + i), FALSE), r.opt),
                      !.ins = DIns(r.ins, Sub(s, 9), r.k # "set" /\ ~(r.k = "xrel" /\ r.x.xt = "multi"))])
      x == TLCEval(CASE r.k = "read" -> [r.x EXCEPT !.cols = DCols(r.x.cols, Sub(s, 10)), !.tn = IF Hit(s, 11, "field") THEN <<>> ELSE r.x.tn]
             [] r.k = "virt" -> [r.x EXCEPT !.cols = DCols(r.x.cols, Sub(s, 10)), !.rows = MapI(LAMBDA i, q : DEs(q, Sub(s, 100 + i)), r.x.rows), !.flt = DEs(r.x.flt, Sub(s, 12))]
             [] r.k = "extread" -> [r.x EXCEPT !.cols = DCols(r.x.cols, Sub(s, 10)), !.det = IF Hit(s, 13, "ext") THEN <<>> ELSE Map(LAMBDA d : DItem(d, Sub(s, 14), FALSE), r.x.det)]
             [] r.k = "filter" -> [r.x EXCEPT !.c = DOpt(r.x.c, Sub(s, 11), "field")]
             [] r.k = "proj" -> [r.x EXCEPT !.es = DEs(r.x.es, Sub(s, 11))]
             [] r.k = "agg" ->
                  LET HasE(q, e) == \E i \in 1..Len(q) : q[i] = e
                      g0 == DEs(r.x.ge, Sub(s, 11))
                      ge == IF Len(g0) > 1 /\ g0[1] = r.x.ge[1] /\ Hit(s, 12, "field") THEN [g0 EXCEPT ![Len(g0)] = g0[1]] ELSE g0
                      calls == FilterQ(LAMBDA e : e.k = "call" /\ HasE(r.x.ge, e), ge)
                  IN [r.x EXCEPT !.ge = ge,
                                 !.ms = MapI(LAMBDA i, q : IF Hit(s, 200 + i, "field") THEN <<>>
                                                           ELSE IF calls # <<>> /\ Hit(s, 205 + i, "field") THEN <<PickQ(s, 206 + i, calls)>>
                                                           ELSE Map(LAMBDA e : DCall(e, Sub(s, 210 + i)), q), r.x.ms),
                                 !.gs = MapI(LAMBDA i, g : IF Hit(s, 220 + i, "index") THEN Append(g, Len(r.x.ge) + R(s, 230 + i, 3))
                                                           ELSE IF g # <<>> /\ Hit(s, 225 + i, "index") THEN Tail(g) ELSE g, r.x.gs)]
             [] r.k = "sort" -> [r.x EXCEPT !.fs = MapI(LAMBDA i, f : [e |-> DOpt(f.e, Sub(s, 240 + i), "field"),
                                                                      d |-> IF Hit(s, 260 + i, "enum") THEN PickQ(s, 270 + i, <<"Clustered", "?unspec", "?unknown", "?neg", "?none", "?fn">>) ELSE f.d], r.x.fs)]
             [] r.k = "fetch" -> [r.x EXCEPT !.lim = Map(LAMBDA q : DCount(q, Sub(s, 15)), r.x.lim), !.off = Map(LAMBDA q : DCount(q, Sub(s, 16)), r.x.off)]
             [] r.k = "join" -> [r.x EXCEPT !.c = DOpt(r.x.c, Sub(s, 11), "field"), !.pf = DEs(r.x.pf, Sub(s, 12)),
                                            !.jt = IF Hit(s, 17, "enum") THEN PickQ(s, 18, <<"?unspec", "?unknown", "?neg">>) ELSE r.x.jt]
             [] r.k = "set" -> [r.x EXCEPT !.op = IF Hit(s, 17, "enum") THEN PickQ(s, 18, <<"?unspec", "?unknown", "?neg">>) ELSE r.x.op]
             [] r.k = "xrel" -> [r.x EXCEPT !.item = DItem(r.x.item, Sub(s, 19), TRUE)]
             [] OTHER -> r.x)
      b1 == TLCEval([b0 EXCEPT !.x = x])
  IN IF r.k \in {"read", "virt", "extread", "xrel"} THEN b1
     ELSE [b1 EXCEPT !.em = DEm(b1.em, Sub(s, 30), Direct([b1 EXCEPT !.em = [m |-> "dir"]]))]
DRoot(r, s) == IF Hit(s, 1, "root") THEN [rk |-> "none"]
               ELSE IF r.rk = "root" /\ Hit(s, 2, "root") THEN [r EXCEPT !.rel = [k |-> "gone"]]
               ELSE [r EXCEPT !.rel = DR(r.rel, Sub(s, 3))]
Damage(p, s) == [p EXCEPT !.roots = MapI(LAMBDA i, r : DRoot(r, Sub(s, i)), p.roots)]
Check ==
  LET g == TLCEval(GenPlan(Sub(seed, 3), seed % (Depth + 1)))
      p == TLCEval(Damage(g, Sub(seed, 31)))
      o == IF seed % 3 = 0 THEN GenOpts(Sub(seed, 32)) ELSE DefaultOpts
      d == TLCEval(PrintDoc(p, o))
  IN PrintT(ToJson([c |-> "fmt", seed |-> seed, ast |-> p, opts |-> o, text |-> ToText(DocLines(d, Canon), o.ind), back |-> <<>>]))
=============================================================================
