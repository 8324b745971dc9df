--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The plans and documents of the model: a pure function from a seed to a  *)
(* plan.  Everything generated here with faults = 0 lies in the supported  *)
(* subset and is canonical, i.e. Mean(Print(p)) = p (checked by TLC).      *)
(***************************************************************************)
EXTENDS Doc

\* -- pools ------------------------------------------------------------------
IntPool == <<[num |-> "0", mw |-> 8], [num |-> "1", mw |-> 8], [num |-> "-1", mw |-> 8], [num |-> "7", mw |-> 8], [num |-> "42", mw |-> 8],
             [num |-> "127", mw |-> 8], [num |-> "-128", mw |-> 8], [num |-> "128", mw |-> 16], [num |-> "-129", mw |-> 16],
             [num |-> "255", mw |-> 16], [num |-> "32767", mw |-> 16], [num |-> "-32768", mw |-> 16], [num |-> "32768", mw |-> 32],
             [num |-> "-32769", mw |-> 32], [num |-> "2147483647", mw |-> 32], [num |-> "-2147483648", mw |-> 32],
             [num |-> "2147483648", mw |-> 64], [num |-> "-2147483649", mw |-> 64], [num |-> "4294967296", mw |-> 64],
             [num |-> "9007199254740993", mw |-> 64],
             [num |-> "9223372036854775807", mw |-> 64], [num |-> "-9223372036854775808", mw |-> 64]>>
BigInts == <<[num |-> "9223372036854775808", mw |-> 65], [num |-> "-9223372036854775809", mw |-> 65],
             [num |-> "18446744073709551616", mw |-> 65], [num |-> "99999999999999999999999", mw |-> 65]>>
FltPool == <<[num |-> "0.0", mw |-> 32], [num |-> "1.0", mw |-> 32], [num |-> "-1.5", mw |-> 32], [num |-> "0.25", mw |-> 32],
             [num |-> "-0.0", mw |-> 32], [num |-> "0.1", mw |-> 32], [num |-> "-3.75", mw |-> 32], [num |-> "16777216.0", mw |-> 32],
             [num |-> "0.000001", mw |-> 32], [num |-> "123456.0", mw |-> 32],
             [num |-> "340282350000000000000000000000000000000.0", mw |-> 32],
             [num |-> "0.1234567890123", mw |-> 64], [num |-> "9007199254740992.0", mw |-> 64], [num |-> "100000000000000000000.0", mw |-> 32],
             [num |-> "3.141592653589793", mw |-> 64], [num |-> "-0.30000000000000004", mw |-> 64],
             [num |-> "400000000000000000000000000000000000000.0", mw |-> 64]>>
CharPool == <<97, 98, 122, 65, 48, 57, 32, 32, 39, 34, 92, 10, 9, 13, 0, 1, 31, 127, 133, 160, 233, 20013, 128512, 8203, 769,
              123, 125, 35, 61, 62, 91, 93, 44, 58, 45, 43, 95, 36, 40, 41, 33, 63, 47, 46, 38, 64, 117, 110, 116, 114, 65279, 57344>>
GenChars(s) == LET n == PickQ(s, 1, <<0, 1, 1, 2, 3, 5, 8>>) IN Tab(LAMBDA i : PickQ(s, i + 1, CharPool), n)
IdPool  == <<"a", "b", "x1", "id", "name_2", "Price", "true", "null", "false", "i64", "string_col", "Root", "Read", "filter", "limit",
             "list", "timestamp", "if_then", "date2", "a_very_long_identifier_name_0123456789">>
OddPool == << <<>>, <<32>>, <<49, 97>>, <<97, 32, 98>>, <<97, 34, 98>>, <<97, 92>>, <<95, 120>>, <<97, 45, 98>>, <<233>>, <<10>>, <<97, 46, 98>>,
              <<36, 48>>, <<97, 44, 32, 98>>, <<61, 62>>, <<93>>, <<128512>>, <<39>>, <<769>>, <<97, 58, 105>>, <<35, 49>>, <<45, 32, 97>>, <<10, 45, 32>> >>
GenName(s) == IF Flip(s, 1, 70) THEN [id |-> PickQ(s, 2, IdPool)] ELSE [cs |-> PickQ(s, 3, OddPool)]
GenNames(s, n) == Tab(LAMBDA i : GenName(Sub(s, i)), n)

\* -- extension tables ---------------------------------------------------------
AnchorPool == <<1, 2, 3, 5, 8, 10, 11, 99, 100, 1000, U32, 0>>
FnNames == <<"add", "sub", "equal", "count", "sum", "lower", "is_null", "if_then_else", "null_if", "true_val", "i64_to_str", "concat", "add", "if_then", "null", "true">>
Sigs    == <<"i64_i64", "any_any", "", "str", "u!json_str", "fp64", "i64_i64">>
TyNames == <<"point", "geo", "json", "time_series", "list_x", "stringy", "i64x", "point", "map2", "date", "list", "List">>
VarNames == <<"short_v", "dict", "wide">>
UrnPool == <<"/urn/a", "https://example.com/x.yaml", "urn:b:c", "extension:io.substrait:functions_arithmetic", "/urn/a", "x#1@2:">>
Anchors(s, n) == LET st == PickQ(s, 1, <<1, 5, 7, 11>>) IN
                 LET off == R(s, 2, 12) IN Tab(LAMBDA i : AnchorPool[((off + st * i) % 12) + 1], n)
GenTbl(s) ==
  LET nu == PickQ(s, 1, <<0, 1, 1, 2, 3>>)
      ua == Anchors(Sub(s, 1), nu)
      urns == Tab(LAMBDA i : [ua |-> ua[i], ut |-> PickQ(s, 10 + i, UrnPool)], nu)
      U(t) == ua[R(t, 5, nu) + 1]
      nf == IF nu = 0 THEN 0 ELSE PickQ(s, 2, <<1, 2, 3, 4, 6>>)
      nt == IF nu = 0 THEN 0 ELSE PickQ(s, 3, <<0, 1, 2, 3>>)
      nv == IF nu = 0 THEN 0 ELSE PickQ(s, 4, <<0, 0, 1>>)
      fa == Anchors(Sub(s, 2), nf)
      ta == Anchors(Sub(s, 3), nt)
      va == Anchors(Sub(s, 4), nv)
      F(i) == LET t == Sub(s, 100 + i)
                  hs == Flip(t, 2, 45) IN
              [kd |-> "f", a |-> fa[i], u |-> U(t), nm |-> PickQ(t, 1, FnNames), hs |-> hs, sg |-> IF hs THEN PickQ(t, 3, Sigs) ELSE ""]
      T(i) == LET t == Sub(s, 200 + i) IN [kd |-> "t", a |-> ta[i], u |-> U(t), nm |-> PickQ(t, 1, TyNames), hs |-> FALSE, sg |-> ""]
      V(i) == LET t == Sub(s, 300 + i) IN [kd |-> "v", a |-> va[i], u |-> U(t), nm |-> PickQ(t, 1, VarNames), hs |-> FALSE, sg |-> ""]
  IN SortTbl([urns |-> urns, exts |-> Tab(F, nf) \o Tab(T, nt) \o Tab(V, nv)])
FnAnchors(tbl) == Map(LAMBDA e : e.a, Exts(tbl, "f"))
TyAnchors(tbl) == Map(LAMBDA e : e.a, Exts(tbl, "t"))

\* -- types ----------------------------------------------------------------------
GenNu(s) == IF Flip(s, 91, 45) THEN "N" ELSE "R"
RECURSIVE GenT(_, _, _)
GenT(s, d, tbl) ==
  LET r == R(s, 1, 20) 
      ta == TyAnchors(tbl) IN
  IF d = 0 \/ r < 11
  THEN IF r = 0 THEN [k |-> "prec", n |-> PickQ(s, 3, PrecNames), nu |-> GenNu(s), p |-> R(s, 4, 13)]
       ELSE [k |-> "s", n |-> PickQ(s, 2, SimpleNames), nu |-> GenNu(s)]
  ELSE CASE r \in 11..12 -> [k |-> "list", nu |-> GenNu(s), e |-> GenT(Sub(s, 1), d - 1, tbl)]
         [] r \in 13..14 -> [k |-> "map", nu |-> GenNu(s), key |-> GenT(Sub(s, 1), d - 1, tbl), val |-> GenT(Sub(s, 2), d - 1, tbl)]
         [] r \in 15..16 -> [k |-> "struct", nu |-> GenNu(s), es |-> Tab(LAMBDA i : GenT(Sub(s, i), d - 1, tbl), R(s, 5, 4))]
         [] r = 17       -> [k |-> "prec", n |-> PickQ(s, 3, PrecNames), nu |-> GenNu(s), p |-> R(s, 4, 13)]
         [] OTHER -> IF ta = <<>> THEN [k |-> "s", n |-> PickQ(s, 2, SimpleNames), nu |-> GenNu(s)]
                     ELSE [k |-> "udt", nu |-> GenNu(s), a |-> PickQ(s, 6, ta),
                           ps |-> Tab(LAMBDA i : IF Flip(s, 7 + i, 50) THEN [pt |-> GenT(Sub(s, 20 + i), d - 1, tbl)]
                                                 ELSE [pi |-> PickQ(s, 30 + i, <<0, 1, -5, 38, 2147483647>>)], R(s, 7, 3))]

\* -- literals ---------------------------------------------------------------------
DayPool == <<0, -1, 1, 10957, 11016, 11017, 19782, 18262, -719162, -719163, -719528, -719529, 2932896, 2932897, -25567, 47540, 59, 60, -141428, 5000000>>
SecPool == <<0, 1, 59, 60, 3599, 3600, 43200, 86399, 12345, 71999>>
FracPool(p) == CASE p = 0 -> <<0>>
                 [] p = 3 -> <<0, 1, 10, 500, 999>>
                 [] p = 6 -> <<0, 1, 1000, 500000, 999999, 123456>>
                 [] OTHER -> <<0, 1, 1000, 1000000, 500000000, 999999999, 123456789>>
GenDay(s)   == IF Flip(s, 61, 50) THEN PickQ(s, 62, DayPool) ELSE R(s, 63, 80000) - 40000
Day9(s)     == R(s, 64, 200000) - 100000
GenSec(s)   == IF Flip(s, 65, 50) THEN PickQ(s, 66, SecPool) ELSE R(s, 67, 86400)
LitNb(s)    == Flip(s, 92, 30)
GenLit(s, tbl) ==
  LET r == R(s, 1, 22)
      nb == LitNb(s)
      p == PickQ(s, 3, <<0, 3, 6, 9>>)
      L(lk) == [k |-> "lit", lk |-> lk, nb |-> nb]
  IN CASE r \in 0..4 -> LET v == PickQ(s, 2, IntPool)
                            ws == FilterQ(LAMBDA w : Bits[w] >= v.mw, <<"i64", "i64", "i8", "i16", "i32">>) IN
                        [k |-> "lit", lk |-> "int", nb |-> nb, w |-> PickQ(s, 4, ws), num |-> v.num, mw |-> v.mw]
       [] r \in 5..7 -> LET v == PickQ(s, 2, FltPool) IN
                        [k |-> "lit", lk |-> "flt", nb |-> nb, w |-> IF v.mw = 32 /\ Flip(s, 4, 50) THEN "fp32" ELSE "fp64", num |-> v.num, mw |-> v.mw]
       [] r \in 8..9 -> [k |-> "lit", lk |-> "bool", nb |-> nb, b |-> Flip(s, 2, 50)]
       [] r \in 10..12 -> [k |-> "lit", lk |-> "str", nb |-> nb, cs |-> GenChars(Sub(s, 1))]
       [] r = 13 -> [k |-> "lit", lk |-> "date", nb |-> nb, d |-> GenDay(s)]
       [] r = 14 -> [k |-> "lit", lk |-> "time", nb |-> nb, s |-> GenSec(s), f |-> PickQ(s, 5, FracPool(6))]
       [] r = 15 -> [k |-> "lit", lk |-> "ts", nb |-> nb, d |-> GenDay(s), s |-> GenSec(s), f |-> PickQ(s, 5, FracPool(6))]
       [] r = 16 -> [k |-> "lit", lk |-> "ptime", nb |-> nb, s |-> GenSec(s), f |-> PickQ(s, 5, FracPool(p)), p |-> p]
       [] r \in 17..18 -> [k |-> "lit", lk |-> IF Flip(s, 6, 50) THEN "pts" ELSE "ptstz", nb |-> nb,
                           d |-> IF p = 9 THEN Day9(s) ELSE GenDay(s), s |-> GenSec(s), f |-> PickQ(s, 5, FracPool(p)), p |-> p]
       [] r = 19 -> LET q == PickQ(s, 7, <<0, 3, 6, 9, 12>>) IN
                    [k |-> "lit", lk |-> "iday", nb |-> nb, dd |-> PickQ(s, 8, <<0, 0, 1, -1, 30, 36500, -36500>>),
                     ss |-> PickQ(s, 9, <<0, 0, 1, -1, 59, 86400, 100000>>),
                     sub |-> IF q = 0 THEN 0 ELSE PickQ(s, 10, <<0, 0, 1, -1, 500, 999, -999>>), p |-> q]
       [] OTHER -> [k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> GenT(Sub(s, 2), 1, tbl)]

\* -- expressions --------------------------------------------------------------------
RECURSIVE GenE(_, _, _, _)
GenCall(s, d, w, tbl) ==
  [k |-> "call", f |-> PickQ(s, 31, FnAnchors(tbl)),
   args |-> Tab(LAMBDA i : GenE(Sub(s, i), d - 1, w, tbl), R(s, 32, 4)),
   ty |-> <<GenT(Sub(s, 9), 1, tbl)>>]
GenE(s, d, w, tbl) ==
  LET r == R(s, 1, 20) IN
  IF d = 0 \/ r < 9
  THEN IF w > 0 /\ Flip(s, 2, 55) THEN Ref(R(s, 3, w)) ELSE GenLit(Sub(s, 7), tbl)
  ELSE CASE r \in 9..14 -> IF FnAnchors(tbl) = <<>> THEN GenLit(Sub(s, 7), tbl) ELSE GenCall(s, d, w, tbl)
         [] r \in 15..17 -> [k |-> "cast", e |-> GenE(Sub(s, 1), d - 1, w, tbl), fb |-> R(s, 4, 3), to |-> GenT(Sub(s, 2), 1, tbl)]
         [] OTHER -> [k |-> "ite", br |-> Tab(LAMBDA i : [c |-> GenE(Sub(s, 10 + i), d - 1, w, tbl), t |-> GenE(Sub(s, 20 + i), d - 1, w, tbl)], 1 + R(s, 5, 2)),
                      els |-> GenE(Sub(s, 3), d - 1, w, tbl)]

\* -- extension arguments ----------------------------------------------------------------
XNames == <<[id |-> "Alpha"], [id |-> "Beta"], [cs |-> <<111, 100, 100, 32, 120>>]>>
RECURSIVE GenXV(_, _, _, _)
GenXV(s, d, w, tbl) ==
  LET r == R(s, 1, IF d = 0 THEN 12 ELSE 16) IN
  CASE r \in 0..1 -> [xk |-> "str", cs |-> GenChars(Sub(s, 1))]
    [] r \in 2..4 -> [xk |-> "int", num |-> PickQ(s, 2, IntPool).num]
    [] r = 5      -> [xk |-> "flt", num |-> PickQ(s, 2, FltPool).num]
    [] r = 6      -> [xk |-> "bool", b |-> Flip(s, 2, 50)]
    [] r = 7      -> [xk |-> "null"]
    [] r = 8      -> [xk |-> "enum", en |-> PickQ(s, 2, <<"HASH", "CORE", "x_1", "Asc">>)]
    [] r \in 9..11 -> LET e == GenE(Sub(s, 3), 1, w, tbl) IN
                      IF e.k = "lit" /\ ~ShowsType(e, DefaultOpts) THEN [xk |-> "expr", e |-> Ref(R(s, 4, 3))] ELSE [xk |-> "expr", e |-> e]
    [] OTHER -> [xk |-> "tup", xs |-> Tab(LAMBDA i : GenXV(Sub(s, i), d - 1, w, tbl), R(s, 5, 4))]
GenCol(s, w, tbl) ==
  IF Flip(s, 1, 65) THEN [ck |-> "n", n |-> GenName(Sub(s, 1)), t |-> GenT(Sub(s, 2), 1, tbl)]
  ELSE [ck |-> "e", e |-> GenE(Sub(s, 3), 1, w, tbl)]
GenXA(s, w, tbl, rel) ==
  LET np == PickQ(s, 1, <<0, 0, 1, 2, 3>>)
      nn == PickQ(s, 2, <<0, 0, 1, 2>>)
      off == R(s, 3, 7)
  IN [pos   |-> Tab(LAMBDA i : GenXV(Sub(s, i), 2, w, tbl), np),
      named |-> InOrder(Tab(LAMBDA i : [n |-> ArgNames[((off + i) % 7) + 1], v |-> GenXV(Sub(s, 20 + i), 2, w, tbl)], nn)),
      cols  |-> IF rel THEN Tab(LAMBDA i : GenCol(Sub(s, 40 + i), w, tbl), PickQ(s, 4, <<0, 1, 2, 3>>)) ELSE <<>>]
GenItem(s, w, tbl) == [xn |-> PickQ(s, 1, XNames), xa |-> GenXA(Sub(s, 2), w, tbl, FALSE)]

\* -- relations -----------------------------------------------------------------------------
GenEmit(s, n) ==
  IF n = 0 \/ Flip(s, 71, 50) THEN [m |-> "dir"]
  ELSE MakeEmit(Tab(LAMBDA i : R(s, 72 + i, n), PickQ(s, 72, <<0, 1, 2, 3, n>>)), n)
GenCols(s, n, tbl) == Tab(LAMBDA i : [n |-> GenName(Sub(s, i)), t |-> GenT(Sub(s, 50 + i), 2, tbl)], n)
WithAdds(r, s, tbl) ==
  IF Flip(s, 81, 75) THEN r
  ELSE [r EXCEPT !.enh = IF Flip(s, 82, 60) THEN <<GenItem(Sub(s, 83), 2, tbl)>> ELSE <<>>,
                 !.opt = Tab(LAMBDA i : GenItem(Sub(s, 84 + i), 2, tbl), R(s, 84, 3))]
Mk(k, em, ins, x) == [k |-> k, em |-> em, enh |-> <<>>, opt |-> <<>>, ins |-> ins, x |-> x]
GenRead(s, n, tbl) ==
  LET r == R(s, 21, 10)
      cols == GenCols(Sub(s, 22), n, tbl) IN
  CASE r < 6 -> LET em == IF n > 0 /\ Flip(s, 23, 30) THEN [m |-> "map", is |-> Tab(LAMBDA i : R(s, 30 + i, n), n)] ELSE [m |-> "dir"] IN
                Mk("read", em, <<>>, [tn |-> GenNames(Sub(s, 24), 1 + R(s, 25, 3)), cols |-> cols])
    [] r \in 6..7 -> Mk("virt", [m |-> "dir"], <<>>,
                        [cols |-> cols, rows |-> Tab(LAMBDA i : Tab(LAMBDA j : GenE(Sub(s, 100 + 10 * i + j), 1, 0, tbl), IF Flip(s, 28, 85) THEN n ELSE 0), PickQ(s, 26, <<0, 1, 2, 3, 4>>)),
                         flt |-> IF Flip(s, 27, 30) THEN <<GenE(Sub(s, 27), 2, n, tbl)>> ELSE <<>>])
    [] OTHER -> Mk("extread", [m |-> "dir"], <<>>, [cols |-> cols, det |-> <<GenItem(Sub(s, 29), n, tbl)>>])
RECURSIVE GenR(_, _, _)
RECURSIVE GenRW(_, _, _, _)
GenRW(s, d, n, tbl) ==       \* a relation with exactly n output columns
  IF d = 0 \/ Flip(s, 11, 50) THEN GenRead(Sub(s, 12), n, tbl)
  ELSE LET c == GenR(Sub(s, 13), d - 1, tbl)
           w == OutWidth(c) IN
       IF w = 0 THEN GenRead(Sub(s, 12), n, tbl)
       ELSE Mk("filter", MakeEmit(Tab(LAMBDA i : R(s, 14 + i, w), n), w), <<c>>, [c |-> <<GenE(Sub(s, 15), 2, w, tbl)>>])
FetchV(s, w, tbl) ==
  LET e == GenE(Sub(s, 1), 1, w, tbl) IN
  IF Flip(s, 1, 60) THEN [fv |-> "e", e |-> [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> PickQ(s, 2, <<"0", "1", "10", "9223372036854775807">>),
                                             mw |-> IF R(s, 2, 4) = 3 THEN 64 ELSE 8]]
  ELSE IF e.k = "lit" /\ e.lk = "int" THEN [fv |-> "e", e |-> [k |-> "cast", e |-> e, fb |-> 0, to |-> [k |-> "s", n |-> "i64", nu |-> "R"]]]
  ELSE [fv |-> "e", e |-> e]
GenR0(s, d, tbl) ==
  LET r == R(s, 1, 22)
      c == GenR(Sub(s, 1), d - 1, tbl)
      w == OutWidth(c)
      E(i) == GenE(Sub(s, 200 + i), 2, w, tbl)
  IN CASE r \in 0..2 -> GenRead(Sub(s, 9), PickQ(s, 2, <<0, 1, 2, 2, 3, 4>>), tbl)
       [] r \in 3..4 -> Mk("filter", GenEmit(Sub(s, 3), w), <<c>>, [c |-> <<E(1)>>])
       [] r \in 5..8 -> LET q == Tab(LAMBDA i : IF w > 0 /\ Flip(s, 30 + i, 50) THEN Ref(R(s, 40 + i, w)) ELSE E(i), PickQ(s, 2, <<0, 1, 2, 3, 4>>))
                            a == ProjAcc(IF Flip(s, 3, 40) THEN Map(Ref, RefsUpTo(w)) \o FilterQ(LAMBDA e : e.k # "ref", q) ELSE q, 1, <<>>, <<>>) IN
                        Mk("proj", MakeEmit(Map(LAMBDA z : IF z.inp THEN z.j ELSE w + z.j, a.is), w + Len(a.es)), <<c>>, [es |-> a.es])
       [] r \in 9..11 ->
            LET ng == PickQ(s, 2, <<1, 1, 1, 2, 3>>)
                pool == Dedup(Tab(LAMBDA i : GenE(Sub(s, 300 + i), 1, w, tbl), 1 + R(s, 3, 4)))
                gs == Tab(LAMBDA i : Tab(LAMBDA j : PickQ(s, 310 + 5 * i + j, pool), R(s, 320 + i, 5)), ng)
                G == Dedup(Flat(gs))
                fns == FnAnchors(tbl)
                outs == (IF Flip(s, 4, 50) THEN G ELSE <<>>)
                        \o Flat(Tab(LAMBDA i : IF fns # <<>> /\ Flip(s, 330 + i, 60) THEN <<GenCall(Sub(s, 340 + i), 2, w, tbl)>>
                                               ELSE IF G # <<>> THEN <<PickQ(s, 350 + i, G)>> ELSE <<>>, R(s, 5, 4)))
                a == AggAcc(outs, 1, G, <<>>, <<>>)
            IN Mk("agg", MakeEmit(a.is, Len(G) + Len(a.ms)), <<c>>,
                  [ge |-> G, gs |-> Map(LAMBDA g : Map(LAMBDA e : IndexOf(G, e) - 1, g), gs), ms |-> a.ms])
       [] r = 12 -> Mk("sort", GenEmit(Sub(s, 3), w), <<c>>, [fs |-> Tab(LAMBDA i : [e |-> <<E(i)>>, d |-> PickQ(s, 20 + i, SortDirs)], R(s, 2, 4))])
       [] r = 13 -> Mk("fetch", GenEmit(Sub(s, 3), w), <<c>>, [lim |-> IF Flip(s, 4, 60) THEN <<FetchV(Sub(s, 5), w, tbl)>> ELSE <<>>,
                                                             off |-> IF Flip(s, 6, 50) THEN <<FetchV(Sub(s, 7), w, tbl)>> ELSE <<>>])
       [] r \in 14..16 -> LET c2 == GenR(Sub(s, 2), d - 1, tbl)
                              w2 == OutWidth(c2)
                              jt == PickQ(s, 2, JoinTypes) IN
                          Mk("join", GenEmit(Sub(s, 3), JoinWidth(jt, w, w2)), <<c, c2>>,
                             [jt |-> jt, c |-> <<GenE(Sub(s, 6), 2, w + w2, tbl)>>, pf |-> IF Flip(s, 4, 35) THEN <<GenE(Sub(s, 5), 2, w + w2, tbl)>> ELSE <<>>])
       [] r = 17 -> LET c2 == GenR(Sub(s, 2), d - 1, tbl) IN Mk("cross", GenEmit(Sub(s, 3), w + OutWidth(c2)), <<c, c2>>, NoX)
       [] r \in 18..19 -> LET n == PickQ(s, 3, <<0, 1, 2, 3>>) IN
                          Mk("set", GenEmit(Sub(s, 3), n), Tab(LAMBDA i : GenRW(Sub(s, 20 + i), d - 1, n, tbl), 2 + R(s, 4, 2)), [op |-> PickQ(s, 5, SetOps)])
       [] OTHER -> LET xt == PickQ(s, 2, <<"leaf", "single", "multi">>)
                       xn == IF Flip(s, 3, 40) THEN CtxName ELSE PickQ(s, 4, XNames)
                       ins == CASE xt = "leaf" -> <<>> [] xt = "single" -> <<c>>
                                [] OTHER -> Tab(LAMBDA i : GenR(Sub(s, 20 + i), d - 1, tbl), R(s, 5, 3)) IN
                   Mk("xrel", [m |-> "dir"], ins, [xt |-> xt, item |-> [xn |-> xn, xa |-> GenXA(Sub(s, 6), w, tbl, TRUE)]])
GenR(s, d, tbl) ==
  IF d = 0 THEN WithAdds(GenRead(Sub(s, 9), PickQ(s, 2, <<0, 1, 2, 2, 3, 4>>), tbl), Sub(s, 8), tbl)
  ELSE LET r == GenR0(s, d, tbl) IN IF r.k = "xrel" THEN r ELSE WithAdds(r, Sub(s, 8), tbl)

\* -- plans -----------------------------------------------------------------------------------
ProdPool == <<"", "", "acme", "a b c", "x: y", "=== Plan", "producer: z", "1.2.3">>
GitPool  == <<"", "", "abc123", "deadbeef00", "v1">>
GenVer(s) == IF Flip(s, 1, 60) THEN <<>>
             ELSE LET v == [maj |-> PickQ(s, 2, <<0, 0, 1, U32>>), min |-> PickQ(s, 3, <<0, 63, 5>>), pat |-> PickQ(s, 4, <<0, 1, 9>>),
                            prod |-> PickQ(s, 5, ProdPool), git |-> PickQ(s, 6, GitPool)] IN
                  IF NoVersion(v) THEN <<>> ELSE <<v>>
GenRoot(s, d, tbl) ==
  LET r == GenR(Sub(s, 1), d, tbl) IN
  IF Flip(s, 2, 45) THEN [rk |-> "rel", rel |-> r]
  ELSE [rk |-> "root", names |-> GenNames(Sub(s, 3), IF Flip(s, 4, 80) THEN OutWidth(r) ELSE R(s, 5, 4)), rel |-> r]
GenPlan(s, d) ==
  LET tbl == GenTbl(Sub(s, 1)) IN
  [ver |-> GenVer(Sub(s, 2)), tbl |-> tbl, roots |-> Tab(LAMBDA i : GenRoot(Sub(s, 10 + i), d, tbl), PickQ(s, 3, <<1, 1, 1, 1, 2, 3, 0>>))]
GenOpts(s) == [an |-> PickQ(s, 1, <<"req", "all", "never">>), lt |-> PickQ(s, 2, <<"req", "all", "never">>), em |-> Flip(s, 3, 30),
               bin |-> Flip(s, 4, 50), thr |-> PickQ(s, 5, <<0, 1, 2, 3, 4, 100>>), ind |-> PickQ(s, 6, <<"  ", "  ", "  ", "    ", " ", "--">>)]
=============================================================================
