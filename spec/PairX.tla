-------------------------------- MODULE PairX --------------------------------
(***************************************************************************)
(* C01, C02, C08.  What stands where.  Every place of a plan that holds an *)
(* expression, with every kind of expression in it, and every kind of      *)
(* expression in each place of that one; likewise every place that holds a *)
(* type, with every kind of type two levels deep.  The text is predicted,  *)
(* and where it denotes a plan, that plan.                                 *)
(***************************************************************************)
EXTENDS EmitK
CONSTANTS What, Wide
VARIABLES slot, e, ph

L(lk, nb) == [k |-> "lit", lk |-> lk, nb |-> nb]
IntW(w, nb) == L("int", nb) @@ [w |-> w, num |-> IF nb THEN "-7" ELSE "5", mw |-> 8]
Str(cs, nb) == L("str", nb) @@ [cs |-> cs]
TStr == [k |-> "s", n |-> "string", nu |-> "N"]
\* one value of every kind of literal, required and nullable
Lits1 == UNION {{IntW("i64", nb), IntW("i32", nb), IntW("i8", nb), L("flt", nb) @@ [w |-> "fp64", num |-> "2.5", mw |-> 32], L("flt", nb) @@ [w |-> "fp32", num |-> "-0.5", mw |-> 32],
                 L("bool", nb) @@ [b |-> nb], Str(<<97>>, nb), Str(<<>>, nb), Str(<<39, 92>>, nb), L("date", nb) @@ [d |-> 5], L("time", nb) @@ [s |-> 3600, f |-> 0],
                 L("ts", nb) @@ [d |-> 5, s |-> 61, f |-> 1000], L("ptime", nb) @@ [s |-> 1, f |-> 5, p |-> 3], L("pts", nb) @@ [d |-> 1, s |-> 1, f |-> 5, p |-> 6],
                 L("ptstz", nb) @@ [d |-> -1, s |-> 1, f |-> 0, p |-> 0], L("iday", nb) @@ [dd |-> 1, ss |-> -2, sub |-> 3, p |-> 6]} : nb \in BOOLEAN}
         \cup {[k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> [t EXCEPT !.nu = "N"]] : t \in {TI64, TStr, [k |-> "list", nu |-> "N", e |-> TI64]}}
Few == {Ref(0), Ref(1), IntW("i64", FALSE), IntW("i32", TRUE), Str(<<97>>, FALSE), L("bool", FALSE) @@ [b |-> TRUE], [k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> TStr]}
Leaf == Lits1 \cup {Ref(0), Ref(1)}
Cll(as, ts) == [k |-> "call", f |-> 1, args |-> as, ty |-> ts]
Cst(x, fb, t) == [k |-> "cast", e |-> x, fb |-> fb, to |-> t]
Ite(br, x) == [k |-> "ite", br |-> br, els |-> x]
\* every composite over children of C; D supplies the neighbours
Over1(C) ==
  {Cll(<<x>>, <<TI64>>) : x \in C} \cup {Cll(<<Ref(0), x>>, <<TStr>>) : x \in C} \cup {Cll(<<x, Ref(1)>>, <<TI64>>) : x \in C}
  \cup {Cst(x, fb, t) : x \in C, fb \in 0..2, t \in {TI64, TStr}}
  \cup {Ite(<<[c |-> x, t |-> Ref(0)]>>, Ref(1)) : x \in C} \cup {Ite(<<[c |-> Ref(0), t |-> x]>>, Ref(1)) : x \in C}
  \cup {Ite(<<[c |-> Ref(0), t |-> Ref(1)]>>, x) : x \in C} \cup {Ite(<<[c |-> Ref(0), t |-> Ref(1)], [c |-> x, t |-> x]>>, Ref(0)) : x \in C}
Single == {Cll(<<>>, <<TI64>>), Cll(<<>>, <<TStr>>)}
E1 == Leaf \cup Single \cup Over1(Few)
E2 == Over1(Leaf \cup Single) \cup Over1(Over1({Ref(0), IntW("i64", FALSE)}))

\* -- types ----------------------------------------------------------------
Nus == {"R", "N", "U"}
T0 == {[k |-> "s", n |-> n, nu |-> nu] : n \in {"i64", "boolean", "timestamp_tz", "interval_year", "uuid", "binary"}, nu \in Nus}
      \cup {[k |-> "prec", n |-> n, nu |-> nu, p |-> p] : n \in {"precisiontimestamp", "interval_day"}, nu \in Nus, p \in {0, 9}}
      \cup {[k |-> "udt", nu |-> nu, a |-> 2, ps |-> <<>>] : nu \in Nus} \cup {[k |-> "dec", nu |-> "R", p |-> 10, sc |-> 2], [k |-> "len", n |-> "varchar", nu |-> "N", p |-> 5]}
T1(C) == UNION {{[k |-> "list", nu |-> nu, e |-> t], [k |-> "map", nu |-> nu, key |-> TI64, val |-> t], [k |-> "map", nu |-> nu, key |-> t, val |-> TStr],
                 [k |-> "struct", nu |-> nu, es |-> <<t>>], [k |-> "struct", nu |-> nu, es |-> <<TI64, t>>], [k |-> "udt", nu |-> nu, a |-> 2, ps |-> <<[pt |-> t]>>],
                 [k |-> "udt", nu |-> nu, a |-> 2, ps |-> <<[pi |-> 3], [pt |-> t]>>]} : t \in C, nu \in Nus} \cup {[k |-> "struct", nu |-> nu, es |-> <<>>] : nu \in Nus}
TSmall == {TI64, [k |-> "s", n |-> "string", nu |-> "U"], [k |-> "prec", n |-> "precisiontime", nu |-> "N", p |-> 6], [k |-> "udt", nu |-> "N", a |-> 2, ps |-> <<>>]}
TAll == T0 \cup T1(T0) \cup T1(T1(TSmall))

\* -- places ---------------------------------------------------------------
R2 == Read(2, Dir)
XItem(a) == [xn |-> [id |-> "Alpha"], xa |-> a]
XA(pos, named, cols) == [pos |-> pos, named |-> named, cols |-> cols]
XE(x) == [xk |-> "expr", e |-> x]
Leafx(a) == Mk("xrel", Dir, <<>>, [xt |-> "leaf", item |-> XItem(a)])
ESlots == {"filter", "proj", "sort", "key", "key2", "meas", "join", "post", "xcol", "cell", "lim", "off", "vflt"}
\* an extension value that is a plain literal is a value, not an expression
XSlots == {"xpos", "xtup", "xnamed", "enh", "opt", "det"}
PlaceE(s, x) ==
  CASE s = "filter" -> Mk("filter", Dir, <<R2>>, [c |-> <<x>>])
    [] s = "proj" -> Mk("proj", Dir, <<R2>>, [es |-> <<x, Cll(<<>>, <<TI64>>), x>>])
    [] s = "sort" -> Mk("sort", Dir, <<R2>>, [fs |-> <<[e |-> <<x>>, d |-> "AscNullsFirst"], [e |-> <<x>>, d |-> "DescNullsLast"]>>])
    [] s = "key" -> Mk("agg", Dir, <<R2>>, [ge |-> <<x>>, gs |-> << <<0>> >>, ms |-> <<>>])
    [] s = "key2" -> Mk("agg", Dir, <<R2>>, [ge |-> <<x, Cll(<<Ref(1)>>, <<TStr>>)>>, gs |-> << <<0, 1>>, <<1>>, <<>> >>, ms |-> <<<<Cll(<<x>>, <<TI64>>)>>>>])
    [] s = "meas" -> Mk("agg", Dir, <<R2>>, [ge |-> <<>>, gs |-> << <<>> >>, ms |-> <<<<Cll(<<x>>, <<TI64>>)>>, <<Cll(<<x, x>>, <<TStr>>)>>>>])
    [] s = "join" -> Mk("join", Dir, <<R2, R2>>, [jt |-> "Left", c |-> <<x>>, pf |-> <<>>])
    [] s = "post" -> Mk("join", Dir, <<R2, R2>>, [jt |-> "Inner", c |-> <<Ref(0)>>, pf |-> <<x>>])
    [] s = "lim" -> Mk("fetch", Dir, <<R2>>, [lim |-> <<[fv |-> "e", e |-> x]>>, off |-> <<>>])
    [] s = "off" -> Mk("fetch", Dir, <<R2>>, [lim |-> <<[fv |-> "e", e |-> Cll(<<x>>, <<TI64>>)]>>, off |-> <<[fv |-> "e", e |-> x]>>])
    [] s = "cell" -> Mk("virt", Dir, <<>>, [cols |-> KCols(2, "v"), rows |-> <<<<x, IntW("i64", FALSE)>>, <<Ref(0), x>>>>, flt |-> <<>>])
    [] s = "vflt" -> Mk("virt", Dir, <<>>, [cols |-> KCols(1, "v"), rows |-> <<<<IntW("i64", FALSE)>>>>, flt |-> <<x>>])
    [] s = "xcol" -> Leafx(XA(<<>>, <<>>, <<[ck |-> "e", e |-> x], [ck |-> "n", n |-> [id |-> "o"], t |-> TI64]>>))
    [] s = "xpos" -> Leafx(XA(<<XE(x), XE(x)>>, <<>>, <<>>))
    [] s = "xtup" -> Leafx(XA(<<[xk |-> "tup", xs |-> <<XE(x)>>], [xk |-> "tup", xs |-> <<[xk |-> "int", num |-> "1"], XE(x)>>]>>, <<>>, <<>>))
    [] s = "xnamed" -> Leafx(XA(<<>>, <<[n |-> [id |-> "count"], v |-> XE(x)]>>, <<>>))
    [] s = "enh" -> [R2 EXCEPT !.enh = <<XItem(XA(<<XE(x)>>, <<>>, <<>>))>>]
    [] s = "opt" -> [R2 EXCEPT !.opt = <<XItem(XA(<<>>, <<[n |-> [id |-> "a"], v |-> XE(x)]>>, <<>>))>>]
    [] s = "det" -> Mk("extread", Dir, <<>>, [cols |-> KCols(1, "x"), det |-> <<XItem(XA(<<XE(x)>>, <<>>, <<>>))>>])
TSlots == {"tcol", "tvcol", "txcol", "tcast", "tcall", "tnull", "txread"}
PlaceT(s, t) ==
  CASE s = "tcol" -> Mk("read", Dir, <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> <<[n |-> [id |-> "a"], t |-> t], [n |-> [id |-> "b"], t |-> TI64]>>])
    [] s = "tvcol" -> Mk("virt", Dir, <<>>, [cols |-> <<[n |-> [id |-> "a"], t |-> t]>>, rows |-> <<<<IntW("i64", FALSE)>>>>, flt |-> <<>>])
    [] s = "txcol" -> Leafx(XA(<<>>, <<>>, <<[ck |-> "n", n |-> [id |-> "a"], t |-> t]>>))
    [] s = "txread" -> Mk("extread", Dir, <<>>, [cols |-> <<[n |-> [id |-> "a"], t |-> t]>>, det |-> <<XItem(XA(<<>>, <<>>, <<>>))>>])
    [] s = "tcast" -> Mk("filter", Dir, <<R2>>, [c |-> <<Cst(Ref(0), 0, t)>>])
    [] s = "tcall" -> Mk("filter", Dir, <<R2>>, [c |-> <<Cll(<<Ref(0)>>, <<t>>)>>])
    [] OTHER -> Mk("filter", Dir, <<R2>>, [c |-> <<[k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> t]>>])
PTbl == [urns |-> KTbl.urns, exts |-> <<[kd |-> "f", a |-> 1, u |-> 1, nm |-> "f", hs |-> FALSE, sg |-> ""], [kd |-> "t", a |-> 2, u |-> 1, nm |-> "ut", hs |-> FALSE, sg |-> ""]>>]

Init == /\ slot \in (IF What = "e" THEN ESlots \cup XSlots ELSE TSlots) /\ e = <<>> /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ slot' = slot
        /\ \E x \in (IF What = "t" THEN TAll ELSE IF Wide THEN E1 \cup E2 ELSE E1) :
             /\ (slot \notin XSlots \/ x.k # "lit")
             \* a negative limit is Degrade's matter
             /\ (slot \notin {"lim", "off"} \/ x \notin {IntW(w, TRUE) : w \in {"i64", "i32", "i8"}})
             /\ e' = <<x>>
Spec == Init /\ [][Next]_<<slot, e, ph>>
Emit == e = <<>> \/
  LET p == [ver |-> <<>>, tbl |-> PTbl, roots |-> <<[rk |-> "rel", rel |-> IF What = "t" THEN PlaceT(slot, e[1]) ELSE PlaceE(slot, e[1])]>>]
      d == TLCEval(PrintDoc(p, DefaultOpts))
      v == ValidDoc(d) IN
  PrintT(ToJson([c |-> "fmt", ast |-> p, opts |-> DefaultOpts, text |-> ToText(DocLines(d, Canon), "  "), back |-> IF v THEN <<MeanDoc(d)>> ELSE <<>>]))
=============================================================================
