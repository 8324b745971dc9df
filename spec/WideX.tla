-------------------------------- MODULE WideX --------------------------------
(***************************************************************************)
(* C01, C02.  Length.  Every part of a plan that is a list, alone, at      *)
(* every length in Lens: the plan has a text, the text means the plan, in  *)
(* that order, with nothing lost, merged or reordered on the way.          *)
(***************************************************************************)
EXTENDS EmitK
CONSTANTS Lens
VARIABLES kind, n

NM(i) == [id |-> "n" \o ToString(i)]
Lab(i) == [id |-> "C" \o ToString(i)]
Cal(es) == [k |-> "call", f |-> 1, args |-> es, ty |-> <<TI64>>]
Two(i) == IF i % 3 = 0 THEN Call(i) ELSE IF i % 3 = 1 THEN IntE(i) ELSE Ref(i % 2)
R2 == Read(2, Dir)
Pr(es) == Mk("proj", Dir, <<R2>>, [es |-> es])
XI(i) == CASE i % 4 = 0 -> [xk |-> "int", num |-> ToString(i)] [] i % 4 = 1 -> [xk |-> "enum", en |-> "E" \o ToString(i)]
           [] i % 4 = 2 -> [xk |-> "str", cs |-> <<97, 48 + (i % 10)>>] [] OTHER -> [xk |-> "expr", e |-> Ref(i)]
XA(pos, cols) == [pos |-> pos, named |-> <<>>, cols |-> cols]
Item(a) == [xn |-> [id |-> "Alpha"], xa |-> a]
Tail1(i) == Item(XA(<<[xk |-> "int", num |-> ToString(i)]>>, <<>>))
Cast(t) == [k |-> "cast", e |-> Ref(0), fb |-> 1, to |-> t]
TyN(i) == [k |-> "s", n |-> PickQ(i, 1, <<"i8", "i16", "i32", "i64", "string", "date", "boolean">>), nu |-> PickQ(i, 2, <<"R", "N">>)]
Word(m) == Tab(LAMBDA i : IF i % 7 = 1 THEN 233 ELSE 97 + (i % 26), m)

Kinds1 == {"args", "proj", "cols", "path", "rows", "cells", "keys", "meas", "sets", "setkeys", "sorts", "inputs", "urns", "exts", "types", "tuple", "pos", "xcols",
           "opts", "xins", "struct", "params", "ifs", "roots", "rnames", "word", "text", "chain", "tkeys", "tstrs", "tmeas", "tfns", "tsigs", "turns"}
Body(k, m) ==
  CASE k = "args" -> Pr(<<Cal(Tab(Two, m))>>)
    [] k = "proj" -> Pr(Tab(LAMBDA i : IF i % 2 = 0 THEN Call(i) ELSE IntE(i), m))
    [] k = "cols" -> Mk("read", Dir, <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> Tab(LAMBDA i : [n |-> NM(i), t |-> TyN(i)], m)])
    [] k = "path" -> Mk("read", Dir, <<>>, [tn |-> Tab(NM, m + 1), cols |-> KCols(1, "c")])
    [] k = "rows" -> Mk("virt", Dir, <<>>, [cols |-> KCols(2, "v"), rows |-> Tab(LAMBDA i : <<IntE(i), IntE(i * i)>>, m + 1), flt |-> <<>>])
    [] k = "cells" -> Mk("virt", Dir, <<>>, [cols |-> KCols(m, "v"), rows |-> <<Tab(IntE, m), Tab(LAMBDA i : IntE(m - i), m)>>, flt |-> <<>>])
    [] k = "keys" -> Mk("agg", Dir, <<R2>>, [ge |-> Tab(Call, m), gs |-> <<RefsUpTo(m)>>, ms |-> <<>>])
    [] k = "meas" -> Mk("agg", Dir, <<R2>>, [ge |-> <<>>, gs |-> << <<>> >>, ms |-> Tab(LAMBDA i : <<Call(i)>>, m)])
    [] k = "sets" -> Mk("agg", Dir, <<R2>>, [ge |-> <<Ref(0), Ref(1)>>, gs |-> << <<0, 1>> >> \o Tab(LAMBDA i : PickQ(i, 1, << <<0>>, <<1>>, <<>>, <<1, 0>> >>), m), ms |-> <<>>])
    [] k = "setkeys" -> Mk("agg", Dir, <<R2>>, [ge |-> Tab(Call, m + 1), gs |-> <<RefsUpTo(m + 1), Tab(LAMBDA i : m + 1 - i, m), <<m>> >>, ms |-> <<>>])
    [] k = "sorts" -> Mk("sort", Dir, <<R2>>, [fs |-> Tab(LAMBDA i : [e |-> <<Two(i)>>, d |-> PickQ(i, 1, SortDirs)], m)])
    [] k = "inputs" -> Mk("set", Dir, Tab(LAMBDA i : Mk("read", Dir, <<>>, [tn |-> <<NM(i)>>, cols |-> KCols(1, "c")]), m + 2), [op |-> "MinusPrimary"])
    [] k = "tuple" -> Mk("xrel", Dir, <<>>, [xt |-> "leaf", item |-> Item(XA(<<[xk |-> "tup", xs |-> Tab(XI, m)]>>, <<>>))])
    [] k = "pos" -> Mk("xrel", Dir, <<>>, [xt |-> "leaf", item |-> Item(XA(Tab(XI, m), <<>>))])
    [] k = "xcols" -> X("leaf", "Alpha", m, <<>>)
    [] k = "opts" -> [R2 EXCEPT !.opt = Tab(Tail1, m)]
    [] k = "xins" -> X("multi", "Ctx", 1, Tab(LAMBDA i : Read(i % 4, Dir), m))
    [] k = "struct" -> Pr(<<Cast([k |-> "struct", nu |-> "N", es |-> Tab(TyN, m)])>>)
    [] k = "params" -> Pr(<<Cast([k |-> "udt", nu |-> "R", a |-> 2, ps |-> Tab(LAMBDA i : IF i % 2 = 0 THEN [pi |-> i] ELSE [pt |-> TyN(i)], m)])>>)
    [] k = "ifs" -> Pr(<<[k |-> "ite", br |-> Tab(LAMBDA i : [c |-> Call(i), t |-> Two(i)], m + 1), els |-> IntE(0)]>>)
    \* twins: alike in the first m parts, different after that
    [] k = "tkeys" -> Mk("agg", Dir, <<R2>>, [ge |-> Tab(LAMBDA i : Cal(Tab(IntE, m) \o <<IntE(i)>>), 3), gs |-> << <<0, 1, 2>>, <<2, 0>> >>, ms |-> <<>>])
    [] k = "tstrs" -> Mk("agg", Dir, <<R2>>, [ge |-> Tab(LAMBDA i : [k |-> "lit", lk |-> "str", nb |-> FALSE, cs |-> Word(m) \o <<97 + i>>], 3), gs |-> << <<0, 1, 2>>, <<1>> >>, ms |-> <<>>])
    [] k = "tmeas" -> Mk("agg", Dir, <<R2>>, [ge |-> <<Cal(Tab(IntE, m) \o <<IntE(1)>>)>>, gs |-> << <<0>> >>, ms |-> <<<<Cal(Tab(IntE, m) \o <<IntE(2)>>)>>, <<Cal(Tab(IntE, m))>>, <<Cal(Tab(IntE, m) \o <<IntE(2)>>)>> >>])
    [] k \in {"tfns", "tsigs"} -> Pr(Tab(LAMBDA i : [k |-> "call", f |-> i, args |-> <<>>, ty |-> <<TI64>>], 3))
    [] k = "word" -> Mk("read", Dir, <<>>, [tn |-> <<[cs |-> Word(m + 1)]>>, cols |-> <<[n |-> [cs |-> Word(m)], t |-> TI64]>>])
    [] k = "text" -> Pr(<<[k |-> "lit", lk |-> "str", nb |-> FALSE, cs |-> Word(m)]>>)
    [] k = "chain" -> LET RECURSIVE C(_) C(j) == IF j = 0 THEN R2 ELSE Mk("proj", Dir, <<C(j - 1)>>, [es |-> <<IntE(j)>>]) IN C(m)
    [] OTHER -> R2
RECURSIVE Ks(_)
Ks(m) == IF m = 0 THEN "k" ELSE Ks(m - 1) \o "k"
Tbl(k, m) ==
  CASE k = "tfns" -> [urns |-> KTbl.urns, exts |-> Tab(LAMBDA i : [kd |-> "f", a |-> i, u |-> 1, nm |-> Ks(m) \o (IF i = 1 THEN "" ELSE IF i = 2 THEN "a" ELSE "b"), hs |-> FALSE, sg |-> ""], 3)]
    [] k = "tsigs" -> [urns |-> KTbl.urns, exts |-> Tab(LAMBDA i : [kd |-> "f", a |-> i, u |-> 1, nm |-> "f", hs |-> TRUE, sg |-> Ks(m) \o (IF i = 1 THEN "" ELSE IF i = 2 THEN "a" ELSE "b")], 3)]
    [] k = "turns" -> [urns |-> Tab(LAMBDA i : [ua |-> i, ut |-> "/" \o Ks(m) \o ToString(i)], 3), exts |-> Tab(LAMBDA i : [kd |-> "f", a |-> i, u |-> i, nm |-> "f", hs |-> FALSE, sg |-> ""], 3)]
    [] k = "urns" -> [urns |-> Tab(LAMBDA i : [ua |-> i, ut |-> "/u" \o ToString(i)], m + 1), exts |-> <<>>]
    [] k = "exts" -> [urns |-> KTbl.urns, exts |-> Tab(LAMBDA i : [kd |-> "f", a |-> i, u |-> 1, nm |-> "f" \o ToString(i), hs |-> FALSE, sg |-> ""], m)]
    [] k = "types" -> [urns |-> KTbl.urns, exts |-> Tab(LAMBDA i : [kd |-> PickQ(i, 1, <<"f", "t", "v">>), a |-> 3 * i, u |-> 1, nm |-> "x" \o ToString(i), hs |-> FALSE, sg |-> ""], m)]
    [] k = "params" -> [urns |-> KTbl.urns, exts |-> <<[kd |-> "t", a |-> 2, u |-> 1, nm |-> "ut", hs |-> FALSE, sg |-> ""]>>]
    [] OTHER -> KTbl
RelRoot(r) == [rk |-> "rel", rel |-> r]
Whole(k, m) ==
  [ver |-> <<>>, tbl |-> Tbl(k, m),
   roots |-> CASE k = "roots" -> Tab(LAMBDA i : IF i % 3 = 0 THEN [rk |-> "root", names |-> Tab(NM, 1), rel |-> Read(1, Dir)] ELSE RelRoot(Read(i % 5, Dir)), m)
               [] k = "rnames" -> <<[rk |-> "root", names |-> Tab(NM, m), rel |-> Read(m, Dir)]>>
               [] OTHER -> <<RelRoot(Body(k, m))>>]

Init == kind \in Kinds1 /\ n = -1
Next == \E m \in Lens : n = -1 /\ n' = m /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, n>>
Emit == n = -1 \/
  LET p == TLCEval(Whole(kind, n))
      d == TLCEval(PrintDoc(p, DefaultOpts))
      t == ToText(DocLines(d, Canon), "  ") IN
  /\ ValidDoc(d) /\ MeanDoc(d) = p
  /\ PrintT(ToJson([c |-> "rt", ast |-> p, text |-> t]))
  /\ PrintT(ToJson([c |-> "doc", ok |-> <<p>>, text |-> t]))
=============================================================================
