-------------------------------- MODULE Rels --------------------------------
(***************************************************************************)
(* Relations, extension arguments and addenda.                             *)
(*                                                                         *)
(* extension value  [xk |-> str cs | int num | flt num | bool b | null |   *)
(*                   enum en | tup xs | expr e | xerr]                     *)
(* ext. arguments   [pos, named |-> <<[n, v]>>, cols |-> <<column>>]       *)
(*   column  [ck |-> "n", n, t] named / [ck |-> "e", e] expression         *)
(* ext. item        [xn |-> name, xa |-> arguments]; an item whose payload *)
(*                  no registered handler knows is [xu |-> "Token"]        *)
(* relation   [k, em, enh, opt, ins, x]                                    *)
(*   em   [m |-> "none"] | [m |-> "dir"] | [m |-> "map", is |-> <<ints>>]  *)
(*   enh/opt  enhancement (<<>> or <<item>>) and optimizations             *)
(*   ins  inputs; [k |-> "gone"] is an input the plan does not have        *)
(*   x by k:  read tn cols | virt cols rows flt | extread cols det         *)
(*     filter c | proj es | agg ge gs ms | sort fs | fetch lim off         *)
(*     join jt c pf | cross | set op | xrel xt item | unsup (unsupported)  *)
(* surface    [k, out, adds, ins, x], out = the written output columns:    *)
(*   [it |-> "e", e] expression or reference, [it |-> "c", n, t] column,   *)
(*   [it |-> "b", tok] error token                                         *)
(***************************************************************************)
EXTENDS Exprs

NoX == [none |-> TRUE]

JoinTypes == <<"Inner", "Left", "Right", "Outer", "LeftSemi", "LeftAnti", "LeftSingle", "LeftMark",
               "RightSemi", "RightAnti", "RightSingle", "RightMark">>
SetOps    == <<"UnionAll", "UnionDistinct", "IntersectionPrimary", "IntersectionMultiset",
               "IntersectionMultisetAll", "MinusPrimary", "MinusPrimaryAll", "MinusMultiset">>
SortDirs  == <<"AscNullsFirst", "AscNullsLast", "DescNullsFirst", "DescNullsLast">>
JoinWidth(jt, l, r) ==
  CASE jt \in {"LeftSemi", "LeftAnti", "LeftSingle"}    -> l
    [] jt \in {"RightSemi", "RightAnti", "RightSingle"} -> r
    [] jt = "LeftMark"  -> l + 1
    [] jt = "RightMark" -> r + 1
    [] OTHER -> l + r

\* -- extension arguments ---------------------------------------------------
RECURSIVE PrintXV(_, _, _)
PrintXV(v, tbl, o) ==
  CASE v.xk = "tup"  -> [xk |-> "tup", xs |-> Map(LAMBDA w : PrintXV(w, tbl, o), v.xs)]
    [] v.xk = "expr" -> [xk |-> "expr", e |-> PrintE(v.e, tbl, o)]
    [] OTHER -> v
PrintCol(c, tbl, o) == IF c.ck = "n" THEN [ck |-> "n", n |-> c.n, t |-> TypeOut(c.t, tbl, o)]
                       ELSE [ck |-> "e", e |-> PrintE(c.e, tbl, o)]
PrintXA(a, tbl, o) == [pos   |-> Map(LAMBDA v : PrintXV(v, tbl, o), a.pos),
                       named |-> Map(LAMBDA q : [n |-> q.n, v |-> PrintXV(q.v, tbl, o)], a.named),
                       cols  |-> Map(LAMBDA c : PrintCol(c, tbl, o), a.cols)]
RECURSIVE ShowXV(_, _)
ShowXV(v, y) ==
  CASE v.xk = "str"  -> <<"'", Escaped(v.cs, y.es, 39), "'">>
    [] v.xk \in {"int", "flt"} -> v.num
    [] v.xk = "bool" -> IF v.b THEN "true" ELSE "false"
    [] v.xk = "null" -> "null"
    [] v.xk = "enum" -> IF "eb" \in DOMAIN v THEN [bad |-> "ExtensionValue"] ELSE <<"&", v.en>>     \* eb: not an identifier
    [] v.xk = "expr" -> ShowE(v.e, y)
    [] v.xk = "tup"  -> LET q == Map(LAMBDA w : ShowXV(w, y), v.xs) IN
                        <<"(", Sp(y.ip), Commas(q, y),
                          IF Len(q) = 1 \/ (Len(q) > 1 /\ y.tr = 1) THEN <<Sp(y.bc), ",">> ELSE "", Sp(y.ip), ")">>
    [] OTHER -> [bad |-> "ExtensionValue"]
\* where a literal could also start, names that read as one are quoted
ShowLabel(n, y) == IF "id" \in DOMAIN n /\ n.id \in {"true", "false", "null"} THEN <<"\"", n.id, "\"">> ELSE ShowName(n, y)
ShowCol(c, y) == IF c.ck = "n" THEN <<ShowLabel(c.n, y), ":", ShowT(c.t, y)>> ELSE ShowE(c.e, y)
ShowXArgs(a, y) ==
  LET q == Map(LAMBDA v : ShowXV(v, y), a.pos)
           \o Map(LAMBDA p : <<ShowLabel(p.n, y), Sp(y.eq), "=", Sp(y.eq), ShowXV(p.v, y)>>, a.named)
  IN IF q = <<>> THEN (IF y.tr = 1 THEN "" ELSE "_") ELSE Commas(q, y)
\* The reference handler `Ctx' (see the harness) prints how many columns each
\* input has, as a named argument w, and drops it when reading.
CtxName == [id |-> "Ctx"]
CtxArg  == [id |-> "w"]
\* A handler asks for the arguments it knows by name (ArgNames, in this order), so
\* the order in which they are written does not matter.
\* The extensions the harness registers, in all four namespaces.
Registered == {[id |-> "Alpha"], [id |-> "Beta"], [cs |-> <<111, 100, 100, 32, 120>>], CtxName}
ArgNames == <<[id |-> "a"], [id |-> "count"], [id |-> "path"], [id |-> "null"], [cs |-> <<111, 100, 100, 32, 110>>], [id |-> "limit"], [id |-> "true"]>>
RECURSIVE ValidXV(_, _)
ValidXV(v, tbl) == CASE v.xk = "tup"  -> \A i \in 1..Len(v.xs) : ValidXV(v.xs[i], tbl)
                     [] v.xk = "expr" -> IF v.e.k = "lit" /\ v.e.ty = <<>> THEN v.e.tok.tk # "bad" ELSE ValidE(v.e, tbl)
                     [] v.xk = "xerr" -> FALSE
                     [] OTHER -> TRUE
ValidCol(c, tbl) == IF c.ck = "n" THEN ValidT(c.t, tbl) ELSE ValidE(c.e, tbl)
ValidXA(a, tbl, ctx) ==
                   /\ \A i \in 1..Len(a.pos) : ValidXV(a.pos[i], tbl)
                   /\ \A i \in 1..Len(a.named) : ValidXV(a.named[i].v, tbl)
                   /\ \A i, j \in 1..Len(a.named) : i # j => a.named[i].n # a.named[j].n
                   /\ \A i \in 1..Len(a.named) : a.named[i].n \in Range(ArgNames) \/ (ctx /\ a.named[i].n = CtxArg)
                   /\ \A i \in 1..Len(a.cols) : ValidCol(a.cols[i], tbl)
\* An unannotated literal is a plain value, everything else an expression.
RECURSIVE MeanXV(_, _)
MeanXV(v, tbl) ==
  CASE v.xk = "tup"  -> [xk |-> "tup", xs |-> Map(LAMBDA w : MeanXV(w, tbl), v.xs)]
    [] v.xk = "expr" ->
         IF v.e.k = "lit" /\ v.e.ty = <<>>
         THEN LET t == v.e.tok IN
              CASE t.tk = "int" -> [xk |-> "int", num |-> t.num]
                [] t.tk = "flt" -> [xk |-> "flt", num |-> t.num]
                [] t.tk = "bool" -> [xk |-> "bool", b |-> t.b]
                [] t.tk = "str" -> [xk |-> "str", cs |-> t.cs]
                [] OTHER -> [xk |-> "null"]
         ELSE [xk |-> "expr", e |-> MeanE(v.e, tbl)]
    [] OTHER -> v
MeanCol(c, tbl) == IF c.ck = "n" THEN [ck |-> "n", n |-> c.n, t |-> MeanT(c.t, tbl)]
                   ELSE [ck |-> "e", e |-> MeanE(c.e, tbl)]
InOrder(named) == Flat(Map(LAMBDA n : FilterQ(LAMBDA q : q.n = n, named), ArgNames))
MeanXA(a, tbl) == [pos   |-> Map(LAMBDA v : MeanXV(v, tbl), a.pos),
                   named |-> InOrder(Map(LAMBDA q : [n |-> q.n, v |-> MeanXV(q.v, tbl)], a.named)),
                   cols  |-> Map(LAMBDA c : MeanCol(c, tbl), a.cols)]

\* -- columns ----------------------------------------------------------------
Cols2Items(cols, tbl, o) == Map(LAMBDA c : IF "nobs" \in DOMAIN c THEN [it |-> "nb", tok |-> c.nobs, t |-> TypeOut(c.t, tbl, o)]
                                           ELSE IF "t" \in DOMAIN c THEN [it |-> "c", n |-> c.n, t |-> TypeOut(c.t, tbl, o)]
                                           ELSE [it |-> "cb", n |-> c.n, tok |-> c.tbadc], cols)
RefItems(n) == Tab(LAMBDA i : [it |-> "e", e |-> Ref(i - 1)], n)

RECURSIVE OutWidth(_)
InWidth(r) == Sum(Map(OutWidth, r.ins))
Direct(r) ==       \* number of columns before any mapping
  CASE r.k \in {"read", "virt", "extread"} -> Len(r.x.cols)
    [] r.k \in {"filter", "sort", "fetch", "cross"} -> InWidth(r)
    [] r.k = "proj" -> InWidth(r) + Len(r.x.es)
    [] r.k = "agg"  -> Len(r.x.ge) + Len(r.x.ms)
    [] r.k = "join" -> JoinWidth(r.x.jt, OutWidth(r.ins[1]), OutWidth(r.ins[2]))
    [] r.k = "set"  -> IF r.ins = <<>> THEN 0 ELSE InWidth(r) \div Len(r.ins)
    [] r.k = "xrel" -> IF "xu" \in DOMAIN r.x.item THEN 1 ELSE Len(r.x.item.xa.cols)
    [] OTHER -> 0
OutWidth(r) == IF r.k \in {"gone", "unsup"} THEN 0
               ELSE IF r.em.m = "map" /\ r.k # "xrel" THEN Len(r.em.is) ELSE Direct(r)

MakeEmit(is, n) == IF is = RefsUpTo(n) THEN [m |-> "dir"] ELSE [m |-> "map", is |-> is]

\* -- Print: relation -> surface ----------------------------------------------
AddOf(at, item, tbl, o) ==
  IF "xu" \in DOMAIN item THEN [at |-> at, xu |-> item.xu]
  ELSE IF item.xa.cols # <<>> THEN [at |-> at, xu |-> "addendum"]
  ELSE [at |-> at, xn |-> item.xn, xa |-> PrintXA(item.xa, tbl, o)]
Adds(r, tbl, o) ==
  IF r.k \in {"xrel", "unsup"} THEN <<>>
  ELSE (IF r.k = "extread" THEN IF r.x.det = <<>> THEN <<AddOf("Ext", [xu |-> "extension"], tbl, o)>> ELSE Map(LAMBDA d : AddOf("Ext", d, tbl, o), r.x.det) ELSE <<>>)
       \o Map(LAMBDA d : AddOf("Enh", d, tbl, o), r.enh)
       \o Map(LAMBDA d : AddOf("Opt", d, tbl, o), r.opt)
EI(e) == [it |-> "e", e |-> e]
BI(b) == [it |-> "b", tok |-> b]
OptE(q, tok) == IF q = <<>> THEN [k |-> "xbad", b |-> tok] ELSE q[1]
\* a measure that is the same call as a key that is shown
LikeKey(m, r) == \E i \in 1..Len(r.x.ge) : LET e == r.x.ge[i] IN
                   /\ \E g \in Range(r.x.gs) : i - 1 \in Range(g)
                   /\ e.k = "call" /\ e.f = m.f /\ e.args = m.args /\ e.ty = m.ty
DirectItems(r, tbl, o) ==
  CASE r.k \in {"read", "virt", "extread"} -> Cols2Items(r.x.cols, tbl, o)
    [] r.k = "proj" -> RefItems(InWidth(r)) \o Map(LAMBDA e : EI(PrintE(e, tbl, o)), r.x.es)
    \* a key that no grouping uses or that repeats another, and a measure that
    \* is written like a key, would read back as something else
    [] r.k = "agg"  -> MapI(LAMBDA i, e : IF (\E g \in Range(r.x.gs) : i - 1 \in Range(g)) /\ ~\E j \in 1..(i - 1) : r.x.ge[j] = e
                                          THEN EI(PrintE(e, tbl, o)) ELSE BI("AggregateRel"), r.x.ge)
                       \o Map(LAMBDA q : IF q # <<>> /\ LikeKey(q[1], r) THEN BI("Measure") ELSE EI(PrintE(OptE(q, "Measure"), tbl, o)), r.x.ms)
    [] OTHER -> RefItems(Direct(r))
OutItems(r, tbl, o) ==
  LET D == DirectItems(r, tbl, o) IN
  IF o.em \/ r.em.m # "map" THEN D
  ELSE Map(LAMBDA i : IF i >= 0 /\ i < Len(D) THEN D[i + 1] ELSE BI("Emitted"), r.em.is)

\* limits and offsets are natural numbers, or expressions
Negative(n) == Len(n) > 0 /\ SubSeq(n, 1, 1) = "-"
FetchOut(q, E(_)) == IF q.fv = "n" THEN (IF Negative(q.num) THEN [fv |-> "neg"] ELSE q)
                   ELSE IF q.e.k = "lit" /\ q.e.lk = "int" /\ q.e.w = "i64" /\ Negative(q.e.num) THEN [fv |-> "neg"] ELSE [fv |-> "e", e |-> E(q.e)]
RECURSIVE PrintR(_, _, _)
PrintR(r, tbl, o) ==
  IF r.k \in {"gone", "unsup"} THEN r ELSE
  LET E(e)  == PrintE(e, tbl, o)
      Es(q) == Map(LAMBDA e : PrintE(e, tbl, o), q)
      out   == IF r.k = "xrel" THEN <<>> ELSE IF r.k = "read" THEN DirectItems(r, tbl, o) ELSE OutItems(r, tbl, o)
      x == CASE r.k = "read"   -> [tn |-> r.x.tn, ar |-> IF r.em.m = "map" THEN "+>" ELSE "=>",
                                   refs |-> IF r.em.m = "map" THEN <<r.em.is>> ELSE <<>>]
             [] r.k = "virt"   -> [rows |-> Map(LAMBDA q : Es(q), r.x.rows), flt |-> Es(r.x.flt),
                                   ml |-> Len(r.x.rows) > 0 /\ Len(r.x.rows) >= o.thr]
             [] r.k = "filter" -> [c |-> E(OptE(r.x.c, "FilterRel"))]
             [] r.k = "agg"    -> [gs |-> Map(LAMBDA g : Map(LAMBDA i : IF i < Len(r.x.ge) THEN E(r.x.ge[i + 1]) ELSE [k |-> "xbad", b |-> "AggregateRel"], g),
                                              IF r.x.gs = <<>> THEN << <<>> >> ELSE r.x.gs)]
             [] r.k = "sort"   -> [fs |-> Map(LAMBDA f : [e |-> E(OptE(f.e, "SortField")), d |-> f.d], r.x.fs)]
             [] r.k = "fetch"  -> [fa |-> Map(LAMBDA q : [fk |-> "limit", v |-> FetchOut(q, E)], r.x.lim)
                                       \o Map(LAMBDA q : [fk |-> "offset", v |-> FetchOut(q, E)], r.x.off)]
             [] r.k = "join"   -> [jt |-> r.x.jt, c |-> E(OptE(r.x.c, "JoinRel")), pf |-> Es(r.x.pf)]
             [] r.k = "set"    -> [op |-> r.x.op]
             [] r.k = "xrel"   -> IF "xu" \in DOMAIN r.x.item THEN [xt |-> r.x.xt, xu |-> r.x.item.xu]
                                  ELSE [xt |-> r.x.xt, xn |-> r.x.item.xn, hc |-> TRUE,
                                        xa |-> LET a == PrintXA(r.x.item.xa, tbl, o) IN
                                               IF r.x.item.xn = CtxName
                                               THEN [a EXCEPT !.named = Append(@, [n |-> CtxArg, v |-> [xk |-> "tup",
                                                      xs |-> Map(LAMBDA i : [xk |-> "int", num |-> ToString(OutWidth(i))],
                                                                 FilterQ(LAMBDA i : i.k # "gone", r.ins))]])]
                                               ELSE a]
             [] OTHER -> NoX
  IN [k |-> r.k, out |-> out, adds |-> Adds(r, tbl, o), ins |-> Map(LAMBDA i : PrintR(i, tbl, o), r.ins), x |-> x]

\* -- Show: surface -> lines -----------------------------------------------------
ShowItem(i, y) == CASE i.it = "e"  -> ShowE(i.e, y)
                    [] i.it = "c"  -> <<ShowName(i.n, y), ":", ShowT(i.t, y)>>
                    [] i.it = "nb" -> <<[bad |-> i.tok], ":", ShowT(i.t, y)>>
                    [] i.it = "cb" -> <<ShowName(i.n, y), ":", [bad |-> i.tok]>>
                    [] OTHER -> [bad |-> i.tok]
ShowItems(q, y) == Commas(Map(LAMBDA i : ShowItem(i, y), q), y)
ShowCols(q, y)  == CommasA(Map(LAMBDA i : ShowItem(i, y), q), y)
ShowEnum(n, bads) == IF n \in DOMAIN bads THEN [bad |-> bads[n]] ELSE <<"&", n>>
JoinBad == ("?unspec" :> "JoinType") @@ ("?unknown" :> "JoinRel") @@ ("?neg" :> "JoinRel")
SetBad  == ("?unspec" :> "SetOp") @@ ("?unknown" :> "SetRel") @@ ("?neg" :> "SetRel")
SortBad == ("?unspec" :> "SortDirection") @@ ("?unknown" :> "SortKind") @@ ("?neg" :> "SortKind") @@ ("?none" :> "SortKind") @@ ("?fn" :> "SortKind")

ExtWord == ("leaf" :> "ExtensionLeaf") @@ ("single" :> "ExtensionSingle") @@ ("multi" :> "ExtensionMulti")
ShowAdd(a, y) ==
  IF "xu" \in DOMAIN a THEN <<"+ ", a.at, "[", [bad |-> a.xu], "]">>
  ELSE <<"+", Sp(Max2(y.aa, IF y = Canon THEN 1 ELSE 0)), a.at, ":", ShowName(a.xn, y), "[", ShowXArgs(a.xa, y), "]">>
ShowRow(q, y) == <<"(", Sp(y.ip), CommasA(Map(LAMBDA e : ShowE(e, y), q), y), Sp(y.ip), ")">>
Arw(y) == Arrow("=>", y)
\* header lines of a relation: a sequence of ropes; all but the first are
\* continuation lines
HeadLines(r, y) ==
  CASE r.k = "unsup" -> << <<[bad |-> "Rel"], "[]">> >>
    [] r.k = "gone"  -> << <<[bad |-> "Rel"]>> >>
    [] r.k = "read"  -> << <<"Read[", IF "tnbad" \in DOMAIN r.x THEN [bad |-> r.x.tnbad] ELSE IF r.x.tn = <<>> THEN [bad |-> "NamedTable"] ELSE Join(Map(LAMBDA n : ShowName(n, y), r.x.tn), "."),
                             Arrow(r.x.ar, y), ShowCols(r.out, y),
                             IF r.x.refs = <<>> THEN "" ELSE <<Arrow("|>", y), Commas(Map(LAMBDA i : <<"$", i>>, r.x.refs[1]), y)>>, "]">> >>
    [] r.k = "virt"  ->
         IF r.x.ml /\ r.x.rows # <<>>
         THEN LET n == Len(r.x.rows) IN
              << <<"Read:Virtual[">> >>
              \o MapI(LAMBDA i, q : <<"- ", ShowRow(q, y), IF i < n \/ r.x.flt # <<>> THEN "," ELSE "">>, r.x.rows)
              \o Map(LAMBDA e : <<"- filter", Sp(y.eq), "=", Sp(y.eq), ShowE(e, y)>>, r.x.flt)
              \o << <<"- =>", Sp(y.aa), ShowCols(r.out, y), "]">> >>
         ELSE << <<"Read:Virtual[", Commas((IF r.x.rows = <<>> THEN <<"_">> ELSE Map(LAMBDA q : ShowRow(q, y), r.x.rows))
                                          \o Map(LAMBDA e : <<"filter", Sp(y.eq), "=", Sp(y.eq), ShowE(e, y)>>, r.x.flt), y),
                   Arw(y), ShowCols(r.out, y), "]">> >>
    [] r.k = "extread" -> << <<"Read:Extension[", ShowCols(r.out, y), "]">> >>
    [] r.k = "filter" -> << <<"Filter[", ShowE(r.x.c, y), Arw(y), ShowItems(r.out, y), "]">> >>
    [] r.k = "proj"   -> << <<"Project[", ShowItems(r.out, y), "]">> >>
    [] r.k = "agg"    -> << <<"Aggregate[",
                              IF Len(r.x.gs) = 1 /\ ~(r.x.gs[1] # <<>> /\ y.tr = 1)
                              THEN (IF r.x.gs[1] = <<>> THEN "_" ELSE CommasA(Map(LAMBDA e : ShowE(e, y), r.x.gs[1]), y))
                              ELSE CommasA(Map(LAMBDA g : IF g = <<>> THEN "_"
                                                          ELSE <<"(", Sp(y.ip), CommasA(Map(LAMBDA e : ShowE(e, y), g), y), Sp(y.ip), ")">>, r.x.gs), y),
                              Arw(y), ShowItems(r.out, y), "]">> >>
    [] r.k = "sort"   -> << <<"Sort[", IF r.x.fs = <<>> THEN "_" ELSE
                              Commas(Map(LAMBDA f : <<"(", Sp(y.ip), ShowE(f.e, y), Sp(y.bc), ",", Sp(y.ac), ShowEnum(f.d, SortBad), Sp(y.ip), ")">>, r.x.fs), y),
                              Arw(y), ShowItems(r.out, y), "]">> >>
    [] r.k = "fetch"  -> << <<"Fetch[", IF r.x.fa = <<>> THEN "_" ELSE
                              Commas(Map(LAMBDA f : <<f.fk, Sp(y.eq), "=", Sp(y.eq), IF f.v.fv = "n" THEN f.v.num ELSE IF f.v.fv = "neg" THEN [bad |-> "FetchRel"] ELSE ShowE(f.v.e, y)>>, r.x.fa), y),
                              Arw(y), ShowItems(r.out, y), "]">> >>
    [] r.k = "join"   -> << <<"Join[", Commas(<<ShowEnum(r.x.jt, JoinBad), ShowE(r.x.c, y)>>
                                              \o Map(LAMBDA e : <<"post_filter", Sp(y.eq), "=", Sp(y.eq), ShowE(e, y)>>, r.x.pf), y),
                              Arw(y), ShowItems(r.out, y), "]">> >>
    [] r.k = "cross"  -> << <<"Cross[", ShowItems(r.out, y), "]">> >>
    [] r.k = "set"    -> << <<"Set[", ShowEnum(r.x.op, SetBad), Arw(y), ShowItems(r.out, y), "]">> >>
    [] r.k = "xrel"   -> IF "xu" \in DOMAIN r.x THEN << <<ExtWord[r.x.xt], "[", [bad |-> r.x.xu], "]">> >>
                         ELSE << <<ExtWord[r.x.xt], ":", ShowName(r.x.xn, y), "[", ShowXArgs(r.x.xa, y),
                                   IF r.x.hc THEN <<Arw(y), Commas(Map(LAMBDA c : ShowCol(c, y), r.x.xa.cols), y)>> ELSE "", "]">> >>
    [] OTHER -> << <<"<?rel?>">> >>
Line(d, tx) == [ind |-> d, tx |-> tx]
RECURSIVE ShowR(_, _, _)
ShowR(r, d, y) ==
  LET h == HeadLines(r, y) IN
  MapI(LAMBDA i, tx : IF i = 1 THEN Line(d, tx) ELSE [ind |-> d + 1, tx |-> tx, cont |-> TRUE], h)
  \o (IF r.k \in {"gone", "unsup"} THEN <<>>
      ELSE Map(LAMBDA a : Line(d + 1, ShowAdd(a, y)), r.adds)
           \o Flat(Map(LAMBDA c : ShowR(c, d + 1, y), r.ins)))

\* -- Valid / Mean: surface -> relation --------------------------------------------
SWidth(r) == IF r.k = "xrel" THEN Len(r.x.xa.cols)
             ELSE IF r.k = "read" /\ r.x.refs # <<>> THEN Len(r.x.refs[1]) ELSE Len(r.out)
SIn(r)    == Sum(Map(SWidth, r.ins))
RefsOf(out) == Map(LAMBDA i : i.e.i, out)
AllRefs(out) == \A i \in 1..Len(out) : out[i].it = "e" /\ out[i].e.k = "ref"
AllCols(out, tbl) == \A i \in 1..Len(out) : out[i].it = "c" /\ ValidT(out[i].t, tbl)
Count(q, at) == Cardinality({i \in 1..Len(q) : q[i].at = at})
Arity(k, xt) == CASE k \in {"read", "virt", "extread"} -> {0}
                  [] k \in {"filter", "proj", "agg", "sort", "fetch"} -> {1}
                  [] k \in {"join", "cross"} -> {2}
                  [] k = "set" -> 2..1000
                  [] xt = "leaf" -> {0} [] xt = "single" -> {1} [] OTHER -> 0..1000
ValidItems(out, tbl) == \A i \in 1..Len(out) : out[i].it = "e" /\ ValidE(out[i].e, tbl)
GroupExprs(r, tbl) == Dedup(Flat(Map(LAMBDA g : Map(LAMBDA e : MeanE(e, tbl), g), r.x.gs)))
NegNums == {"-1", "-128", "-129", "-32768", "-32769", "-2147483648", "-2147483649", "-9223372036854775808", "-9223372036854775809"}
\* a plain number as limit or offset must be a count
FetchOk(v, tbl) == IF v.fv = "n" THEN v.num \notin NegNums /\ v.mw <= 64
                   ELSE /\ ValidE(v.e, tbl)
                        /\ (v.e.k = "lit" /\ v.e.ty = <<>> /\ v.e.tok.tk = "int") => v.e.tok.num \notin NegNums
HeadValid(r, tbl) ==
  CASE r.k = "read" -> r.x.tn # <<>> /\ AllCols(r.out, tbl) /\ (r.x.refs # <<>> => r.x.ar = "+>")
    [] r.k = "virt" -> /\ AllCols(r.out, tbl)
                       /\ \A i \in 1..Len(r.x.rows) : \A j \in 1..Len(r.x.rows[i]) : ValidE(r.x.rows[i][j], tbl)
                       /\ \A i \in 1..Len(r.x.flt) : ValidE(r.x.flt[i], tbl)
    [] r.k = "extread" -> AllCols(r.out, tbl)
    [] r.k = "filter" -> ValidE(r.x.c, tbl) /\ AllRefs(r.out)
    [] r.k = "proj" -> ValidItems(r.out, tbl)
    [] r.k = "agg" -> /\ \A i \in 1..Len(r.x.gs) : \A j \in 1..Len(r.x.gs[i]) : ValidE(r.x.gs[i][j], tbl)
                      /\ ValidItems(r.out, tbl)
                      /\ LET G == Range(GroupExprs(r, tbl)) IN
                         \A i \in 1..Len(r.out) : r.out[i].e.k = "call" \/ MeanE(r.out[i].e, tbl) \in G
    [] r.k = "sort" -> AllRefs(r.out) /\ \A i \in 1..Len(r.x.fs) : ValidE(r.x.fs[i].e, tbl) /\ r.x.fs[i].d \in Range(SortDirs)
    [] r.k = "fetch" -> AllRefs(r.out) /\ Cardinality({r.x.fa[i].fk : i \in 1..Len(r.x.fa)}) = Len(r.x.fa) /\ \A i \in 1..Len(r.x.fa) : FetchOk(r.x.fa[i].v, tbl)
    [] r.k = "join" -> AllRefs(r.out) /\ r.x.jt \in Range(JoinTypes) /\ ValidE(r.x.c, tbl)
                       /\ \A i \in 1..Len(r.x.pf) : ValidE(r.x.pf[i], tbl)
    [] r.k = "cross" -> AllRefs(r.out)
    [] r.k = "set" -> AllRefs(r.out) /\ r.x.op \in Range(SetOps)
                      /\ \A i, j \in 1..Len(r.ins) : SWidth(r.ins[i]) = SWidth(r.ins[j])
    [] r.k = "xrel" -> "xn" \in DOMAIN r.x /\ r.x.xn \in Registered /\ ValidXA(r.x.xa, tbl, r.x.xn = CtxName)
    [] OTHER -> FALSE
AddsValid(r, tbl) ==
  /\ \A i \in 1..Len(r.adds) : "xn" \in DOMAIN r.adds[i] /\ r.adds[i].xn \in Registered /\ ValidXA(r.adds[i].xa, tbl, FALSE)
  /\ Count(r.adds, "Enh") <= 1
  /\ Count(r.adds, "Ext") = (IF r.k = "extread" THEN 1 ELSE 0)
  /\ r.k = "xrel" => r.adds = <<>>
RECURSIVE ValidR(_, _)
ValidR(r, tbl) ==
  /\ r.k \notin {"gone", "unsup"}
  /\ \A i \in 1..Len(r.ins) : ValidR(r.ins[i], tbl)
  /\ HeadValid(r, tbl) /\ AddsValid(r, tbl)
  /\ Len(r.ins) \in Arity(r.k, IF r.k = "xrel" THEN r.x.xt ELSE "-")

MeanItem(a, tbl) == [xn |-> a.xn, xa |-> MeanXA(a.xa, tbl)]
ColsOf(out, tbl) == Map(LAMBDA i : [n |-> i.n, t |-> MeanT(i.t, tbl)], out)
RECURSIVE ProjAcc(_, _, _, _)
ProjAcc(q, i, es, is) ==     \* items -> <<expressions, mapping>> with the input width added later
  IF i > Len(q) THEN [es |-> es, is |-> is]
  ELSE IF q[i].k = "ref" THEN ProjAcc(q, i + 1, es, Append(is, [inp |-> TRUE, j |-> q[i].i]))
  ELSE ProjAcc(q, i + 1, Append(es, q[i]), Append(is, [inp |-> FALSE, j |-> Len(es)]))
RECURSIVE AggAcc(_, _, _, _, _)
AggAcc(q, i, G, ms, is) ==
  IF i > Len(q) THEN [ms |-> ms, is |-> is]
  ELSE IF IndexOf(G, q[i]) > 0 THEN AggAcc(q, i + 1, G, ms, Append(is, IndexOf(G, q[i]) - 1))
  ELSE AggAcc(q, i + 1, G, Append(ms, <<q[i]>>), Append(is, Len(G) + Len(ms)))
FetchArg(fa, w, tbl) ==
  LET S == {i \in 1..Len(fa) : fa[i].fk = w} IN
  IF S = {} THEN <<>>
  ELSE LET v == fa[CHOOSE i \in S : TRUE].v IN
       <<[fv |-> "e", e |-> IF v.fv = "n" THEN [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> v.num, mw |-> v.mw]
                            ELSE MeanE(v.e, tbl)]>>
RECURSIVE MeanR(_, _)
MeanR(r, tbl) ==
  LET E(e)  == MeanE(e, tbl)
      Es(q) == Map(LAMBDA e : MeanE(e, tbl), q)
      ins   == Map(LAMBDA i : MeanR(i, tbl), r.ins)
      w     == SIn(r)
      B(em, x) == [k |-> r.k, em |-> em,
                   enh |-> Map(LAMBDA a : MeanItem(a, tbl), FilterQ(LAMBDA a : a.at = "Enh", r.adds)),
                   opt |-> Map(LAMBDA a : MeanItem(a, tbl), FilterQ(LAMBDA a : a.at = "Opt", r.adds)),
                   ins |-> ins, x |-> x]
      D     == [m |-> "dir"]
  IN CASE r.k = "read" -> B(IF r.x.refs = <<>> THEN D ELSE [m |-> "map", is |-> r.x.refs[1]], [tn |-> r.x.tn, cols |-> ColsOf(r.out, tbl)])
       [] r.k = "virt" -> B(D, [cols |-> ColsOf(r.out, tbl), rows |-> Map(LAMBDA q : Es(q), r.x.rows), flt |-> Es(r.x.flt)])
       [] r.k = "extread" -> B(D, [cols |-> ColsOf(r.out, tbl),
                                   det |-> Map(LAMBDA a : MeanItem(a, tbl), FilterQ(LAMBDA a : a.at = "Ext", r.adds))])
       [] r.k = "filter" -> B(MakeEmit(RefsOf(r.out), w), [c |-> <<E(r.x.c)>>])
       [] r.k = "proj" -> LET a == ProjAcc(Map(LAMBDA i : MeanE(i.e, tbl), r.out), 1, <<>>, <<>>) IN
                          B(MakeEmit(Map(LAMBDA z : IF z.inp THEN z.j ELSE w + z.j, a.is), w + Len(a.es)), [es |-> a.es])
       [] r.k = "agg" -> LET G == GroupExprs(r, tbl)
                             a == AggAcc(Map(LAMBDA i : MeanE(i.e, tbl), r.out), 1, G, <<>>, <<>>) IN
                         B(MakeEmit(a.is, Len(G) + Len(a.ms)),
                           [ge |-> G, gs |-> Map(LAMBDA g : Map(LAMBDA e : IndexOf(G, E(e)) - 1, g), r.x.gs), ms |-> a.ms])
       [] r.k = "sort" -> B(MakeEmit(RefsOf(r.out), w), [fs |-> Map(LAMBDA f : [e |-> <<E(f.e)>>, d |-> f.d], r.x.fs)])
       [] r.k = "fetch" -> B(MakeEmit(RefsOf(r.out), w), [lim |-> FetchArg(r.x.fa, "limit", tbl), off |-> FetchArg(r.x.fa, "offset", tbl)])
       [] r.k = "join" -> B(MakeEmit(RefsOf(r.out), JoinWidth(r.x.jt, SWidth(r.ins[1]), SWidth(r.ins[2]))),
                            [jt |-> r.x.jt, c |-> <<E(r.x.c)>>, pf |-> Es(r.x.pf)])
       [] r.k = "cross" -> B(MakeEmit(RefsOf(r.out), w), NoX)
       [] r.k = "set" -> B(MakeEmit(RefsOf(r.out), SWidth(r.ins[1])), [op |-> r.x.op])
       [] r.k = "xrel" -> B(D, [xt |-> r.x.xt, item |-> [xn |-> r.x.xn,
                                xa |-> LET a == MeanXA(r.x.xa, tbl) IN
                                       a]])
=============================================================================
