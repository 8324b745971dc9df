-------------------------------- MODULE ArgsX --------------------------------
(***************************************************************************)
(* C13.  Argument lists of extensions, grown one argument at a time, in    *)
(* each of the four places an extension can stand.  Handler "Alpha" takes  *)
(* any positional arguments and the named ones it knows; handler "Typed"   *)
(* takes no positional arguments and asks for each named one with a type.  *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS Hd, MaxA, Small
VARIABLE as          \* <<[p |-> TRUE, v] or [p |-> FALSE, n, v]>>

Tbl == [urns |-> <<[ua |-> 1, ut |-> "/u"]>>, exts |-> <<[kd |-> "f", a |-> 1, u |-> 1, nm |-> "add", hs |-> FALSE, sg |-> ""]>>]
I(n) == [xk |-> "int", num |-> n]
Str(cs) == [xk |-> "str", cs |-> cs]
X(e) == [xk |-> "expr", e |-> e]
Tup(q) == [xk |-> "tup", xs |-> q]
LitI(w, n) == [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> w, num |-> n, mw |-> 8]
Call == [k |-> "call", f |-> 1, args |-> <<Ref(0), LitI("i64", "3")>>, ty |-> <<[k |-> "s", n |-> "i64", nu |-> "R"]>>]
Vals ==
  IF Small THEN {I("5"), Str(<<97>>), [xk |-> "null"], Tup(<<I("1"), Str(<<>>)>>), X(Ref(0)), [xk |-> "enum", en |-> "HASH"]}
  ELSE {I("5"), I("-9223372036854775808"), I("9223372036854775807"), [xk |-> "flt", num |-> "1.5"], [xk |-> "flt", num |-> "-0.0"], [xk |-> "bool", b |-> TRUE], [xk |-> "bool", b |-> FALSE],
   Str(<<>>), Str(<<97, 39, 92, 10>>), Str(<<38, 97>>), [xk |-> "null"], [xk |-> "enum", en |-> "HASH"], [xk |-> "enum", en |-> "null"],
   X(Ref(0)), X(Ref(7)), X(LitI("i16", "5")), X([k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> [k |-> "s", n |-> "i64", nu |-> "N"]]), X(Call),
   X([k |-> "cast", e |-> Ref(1), fb |-> 1, to |-> [k |-> "s", n |-> "date", nu |-> "N"]]),
   X([k |-> "lit", lk |-> "date", nb |-> FALSE, d |-> 0]),
   Tup(<<>>), Tup(<<I("1")>>), Tup(<<I("1"), I("2"), I("3")>>), Tup(<<I("1"), Str(<<97>>)>>), Tup(<<Str(<<98>>)>>), Tup(<<Tup(<<I("1")>>)>>),
   Tup(<<[xk |-> "null"]>>), Tup(<<X(Ref(2)), X(Call)>>), Tup(<<[xk |-> "enum", en |-> "A"], Tup(<<>>)>>)}
TNames == <<"n", "i", "f", "b", "s", "z", "e", "t", "r", "x", "ti", "ts", "tx">>
Names == IF Hd = "Typed" THEN {[id |-> TNames[i]] : i \in 1..13} \cup {[id |-> "nope"]}
         ELSE (IF Small THEN {[id |-> "a"], [id |-> "count"], [id |-> "null"], [id |-> "nope"]} ELSE Range(ArgNames) \cup {[id |-> "nope"], [id |-> "A"], [cs |-> <<>>]})
Args == {[p |-> TRUE, v |-> v] : v \in Vals} \cup {[p |-> FALSE, n |-> n, v |-> v] : n \in Names, v \in Vals}
Init == as = <<>>
\* the typed handler requires n, so longer lists start with it
Next == Len(as) < MaxA /\ (Hd = "Typed" /\ Len(as) > 0 => as[1] = [p |-> FALSE, n |-> [id |-> "n"], v |-> I("5")]) /\ \E a \in Args : as' = Append(as, a)

\* -- what a request for a type gives -----------------------------------------
Expr(v) == CASE v.xk = "expr" -> v
             [] v.xk = "int" -> X([k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> v.num, mw |-> 64])
             [] v.xk = "flt" -> X([k |-> "lit", lk |-> "flt", nb |-> FALSE, w |-> "fp64", num |-> v.num, mw |-> 64])
             [] v.xk = "str" -> X([k |-> "lit", lk |-> "str", nb |-> FALSE, cs |-> v.cs])
             [] v.xk = "bool" -> X([k |-> "lit", lk |-> "bool", nb |-> FALSE, b |-> v.b])
Fits(n, v) ==
  CASE n \in {"n", "i"} -> v.xk = "int"
    [] n = "f" -> v.xk = "flt"   [] n = "b" -> v.xk = "bool"   [] n \in {"s", "z"} -> v.xk = "str"
    [] n = "e" -> v.xk = "enum"  [] n = "t" -> v.xk = "tup"
    [] n = "r" -> v.xk = "expr" /\ v.e.k = "ref"
    [] n = "x" -> v.xk \in {"expr", "int", "flt", "str", "bool"}
    [] n = "ti" -> v.xk = "tup" /\ \A i \in 1..Len(v.xs) : v.xs[i].xk = "int"
    [] n = "ts" -> v.xk = "tup" /\ \A i \in 1..Len(v.xs) : v.xs[i].xk = "str"
    [] n = "tx" -> v.xk = "tup" /\ \A i \in 1..Len(v.xs) : v.xs[i].xk \in {"expr", "int", "flt", "str", "bool"}
    [] OTHER -> FALSE
Conv(n, v) == CASE n = "x" -> Expr(v) [] n = "tx" -> Tup(Map(Expr, v.xs)) [] OTHER -> v

Pos   == FilterQ(LAMBDA a : a.p, as)
Named == FilterQ(LAMBDA a : ~a.p, as)
Unique == \A i, j \in 1..Len(Named) : i # j => Named[i].n # Named[j].n
Order  == \A i \in 1..Len(as) : as[i].p => \A j \in 1..(i - 1) : as[j].p       \* positional arguments come first
Has(nm) == \E i \in 1..Len(Named) : Named[i].n = [id |-> nm]
Given(nm) == Named[CHOOSE i \in 1..Len(Named) : Named[i].n = [id |-> nm]].v
Ok == /\ Order /\ Unique
      /\ IF Hd = "Typed" THEN Pos = <<>> /\ Has("n") /\ \A i \in 1..Len(Named) : "id" \in DOMAIN Named[i].n /\ Fits(Named[i].n.id, Named[i].v)
         ELSE \A i \in 1..Len(Named) : Named[i].n \in Range(ArgNames)
Got == IF Hd = "Typed"
       THEN [pos |-> <<>>, named |-> Flat(Map(LAMBDA n : IF Has(n) THEN <<[n |-> [id |-> n], v |-> Conv(n, Given(n))]>> ELSE <<>>, TNames)), cols |-> <<>>]
       ELSE [pos |-> Map(LAMBDA a : a.v, Pos), named |-> InOrder(Map(LAMBDA a : [n |-> a.n, v |-> a.v], Named)), cols |-> <<>>]
\* -- the four places -----------------------------------------------------------
Txt(v) == ShowXV(PrintXV(v, Tbl, DefaultOpts), Canon)
ArgText == IF as = <<>> THEN "_" ELSE Join(Map(LAMBDA a : IF a.p THEN Txt(a.v) ELSE <<ShowLabel(a.n, Canon), "=", Txt(a.v)>>, as), ", ")
Hdr == <<"=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: add\n\n=== Plan\n">>
Cl == <<[n |-> [id |-> "a"], t |-> [k |-> "s", n |-> "i64", nu |-> "R"]]>>
Item == [xn |-> [id |-> Hd], xa |-> Got]
Rd == Mk("read", [m |-> "dir"], <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> Cl])
Case(tx, mk(_)) ==
  PrintT(ToJson([c |-> "doc", text |-> <<Hdr, tx, "]\n">>, ok |-> IF Ok THEN <<[ver |-> <<>>, tbl |-> Tbl, roots |-> <<[rk |-> "rel", rel |-> mk(Item)]>>]>> ELSE <<>>]))
Check ==
  /\ Case(<<"ExtensionLeaf:", Hd, "[", ArgText>>, LAMBDA it : Mk("xrel", [m |-> "dir"], <<>>, [xt |-> "leaf", item |-> it]))
  /\ Case(<<"Read:Extension[a:i64]\n  + Ext:", Hd, "[", ArgText>>, LAMBDA it : Mk("extread", [m |-> "dir"], <<>>, [cols |-> Cl, det |-> <<it>>]))
  /\ Case(<<"Read[t => a:i64]\n  + Enh:", Hd, "[", ArgText>>, LAMBDA it : [Rd EXCEPT !.enh = <<it>>])
  /\ Case(<<"Read[t => a:i64]\n  + Opt:", Hd, "[", ArgText>>, LAMBDA it : [Rd EXCEPT !.opt = <<it>>])
=============================================================================
