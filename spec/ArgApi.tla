-------------------------------- MODULE ArgApi --------------------------------
(***************************************************************************)
(* C13.  The argument interface itself, call by call.  A list of arguments *)
(* is first built (push, insert), then handed to a handler that asks for   *)
(* them one request at a time (positional, get_named_arg, get_named,       *)
(* expect_named, get_named_tuple) and returns; what the handler did not    *)
(* ask for is refused at the end.  `stop` says whether the handler gives   *)
(* up at the first request that fails.  `log` is what each call returned.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pool, MaxB, MaxO
VARIABLES pos, named, build, ops, log, handled, phandled, stop

I(n) == [xk |-> "int", num |-> n]
X(e) == [xk |-> "expr", e |-> e]
Tup(q) == [xk |-> "tup", xs |-> q]
Str(cs) == [xk |-> "str", cs |-> cs]
Flt == [xk |-> "flt", num |-> "1.5"]
Bool == [xk |-> "bool", b |-> TRUE]
Null == [xk |-> "null"]
Enum(n) == [xk |-> "enum", en |-> n]
Fail == [xk |-> "xerr", how |-> "err"]
Ref(n) == X([k |-> "ref", i |-> n])
Lit(w, n) == X([k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> w, num |-> n, mw |-> 64])
NotRef(h) == X([k |-> "xbad", how |-> h])
LongTup == Tup([i \in 1..40 |-> I(ToString(i))])
Vals == CASE Pool = "full" -> {I("5"), I("-9223372036854775808"), Flt, [xk |-> "flt", num |-> "-0.0"], Bool, Null, Fail, Str(<<97>>), Str(<<>>), Enum("A"), Ref(0), Ref(7), Lit("i64", "3"),
                                NotRef("refchild"), NotRef("refmap"), NotRef("reflist"), NotRef("refmask"), NotRef("refnoseg"), NotRef("refempty"),
                                Tup(<<>>), Tup(<<I("1"), Str(<<98>>)>>), Tup(<<Ref(1), I("2")>>), Tup(<<I("1"), Fail>>), LongTup, Tup(<<Tup(<<I("1")>>)>>)}
          [] Pool = "pair" -> {I("5"), Str(<<97>>), Ref(3)}
          [] OTHER -> {I("5"), Enum("B")}
Names == CASE Pool = "full" -> {"a"} [] Pool = "pair" -> {"a", "_b", "A"} [] OTHER -> {"a", "_b", "A", ""}
Asked == Names \cup {"missing"}
Types == CASE Pool = "full" -> {"i64", "f64", "bool", "str", "string", "enum", "tuple", "ref", "expr"} [] Pool = "pair" -> {"i64", "expr", "ref"} [] OTHER -> {"i64"}
Nm(n) == IF n = "" THEN [cs |-> <<>>] ELSE [id |-> n]

\* -- converting one value ------------------------------------------------------
Kind(v) == CASE v.xk = "int" -> "integer" [] v.xk = "flt" -> "float" [] v.xk = "bool" -> "boolean" [] v.xk = "null" -> "null" [] v.xk = "str" -> "string"
             [] v.xk = "enum" -> "enum" [] v.xk = "tup" -> "tuple" [] v.xk = "expr" -> "expression" [] OTHER -> "error"
Wanted(t) == CASE t = "i64" -> "integer" [] t = "f64" -> "float" [] t = "bool" -> "boolean" [] t \in {"str", "string"} -> "string" [] t = "enum" -> "enum"
               [] t = "tuple" -> "tuple" [] t = "ref" -> "reference" [] t = "expr" -> "expression"
Fits(t, v) == CASE t = "ref" -> v.xk = "expr" /\ v.e.k = "ref" [] t = "expr" -> v.xk \in {"expr", "int", "flt", "str", "bool"} [] OTHER -> Kind(v) = Wanted(t)
Widen(v) == CASE v.xk = "int" -> Lit("i64", v.num)
              [] v.xk = "flt" -> X([k |-> "lit", lk |-> "flt", nb |-> FALSE, w |-> "fp64", num |-> v.num, mw |-> 64])
              [] v.xk = "str" -> X([k |-> "lit", lk |-> "str", nb |-> FALSE, cs |-> v.cs])
              [] v.xk = "bool" -> X([k |-> "lit", lk |-> "bool", nb |-> FALSE, b |-> v.b])
              [] OTHER -> v
Conv(t, v) == IF Fits(t, v) THEN [ok |-> IF t = "expr" THEN Widen(v) ELSE v] ELSE [exp |-> Wanted(t), got |-> Kind(v)]
Bad(r) == "ok" \notin DOMAIN r
ConvTup(t, v) == IF v.xk # "tup" THEN [exp |-> "tuple", got |-> Kind(v)]
                 ELSE LET rs == [i \in 1..Len(v.xs) |-> Conv(t, v.xs[i])]
                          bad == {i \in 1..Len(rs) : Bad(rs[i])}
                      IN IF bad = {} THEN [ok |-> Tup([i \in 1..Len(rs) |-> rs[i].ok])] ELSE rs[CHOOSE i \in bad : \A j \in bad : i <= j]

\* -- building ------------------------------------------------------------------
Has(n) == \E i \in 1..Len(named) : named[i].n = n
At(n) == CHOOSE i \in 1..Len(named) : named[i].n = n
Init == /\ pos = <<>> /\ named = <<>> /\ build = <<>> /\ ops = <<>> /\ log = <<>> /\ handled = {} /\ phandled = FALSE
        /\ stop \in BOOLEAN
Push(v) == /\ pos' = Append(pos, v) /\ build' = Append(build, [op |-> "push", v |-> v]) /\ UNCHANGED named
\* inserting a name again replaces the value where it stands and gives the old one back
Insert(n, v) ==
  /\ named' = IF Has(n) THEN [named EXCEPT ![At(n)].v = v] ELSE Append(named, [n |-> n, v |-> v])
  /\ build' = Append(build, [op |-> "insert", n |-> Nm(n), v |-> v, old |-> IF Has(n) THEN <<named[At(n)].v>> ELSE <<>>])
  /\ UNCHANGED pos

\* -- requests ------------------------------------------------------------------
Failed(r) == "ok" \notin DOMAIN r /\ "none" \notin DOMAIN r
Stopped == stop /\ Len(log) > 0 /\ Failed(log[Len(log)])
Got(n, f(_)) == LET r == f(named[At(n)].v) IN IF Bad(r) THEN [exp |-> r.exp, got |-> r.got, n |-> Nm(n)] ELSE r
Request(o, r) == /\ ops' = Append(ops, o) /\ log' = Append(log, r) /\ UNCHANGED <<pos, named, build, stop>>
Named1(n) == handled' = (IF Has(n) THEN handled \cup {n} ELSE handled) /\ UNCHANGED phandled
Ask ==
  \/ Request([op |-> "pos"], [ok |-> Tup(pos)]) /\ phandled' = TRUE /\ UNCHANGED handled
  \/ \E n \in Asked : Request([op |-> "raw", n |-> Nm(n)], IF Has(n) THEN [ok |-> named[At(n)].v] ELSE [none |-> 1]) /\ Named1(n)
  \/ \E n \in Asked, t \in Types :
       \/ Request([op |-> "get", n |-> Nm(n), t |-> t], IF Has(n) THEN Got(n, LAMBDA v : Conv(t, v)) ELSE [none |-> 1]) /\ Named1(n)
       \/ Request([op |-> "tuple", n |-> Nm(n), t |-> t], IF Has(n) THEN Got(n, LAMBDA v : ConvTup(t, v)) ELSE [none |-> 1]) /\ Named1(n)
       \/ Request([op |-> "expect", n |-> Nm(n), t |-> t], IF Has(n) THEN Got(n, LAMBDA v : Conv(t, v)) ELSE [miss |-> 1, n |-> Nm(n)]) /\ Named1(n)
Next ==
  \/ /\ ops = <<>> /\ Len(build) < MaxB
     /\ (\E v \in Vals : Push(v)) \/ (\E n \in Names, v \in Vals : Insert(n, v))
     /\ UNCHANGED <<ops, log, handled, phandled, stop>>
  \/ Len(ops) < MaxO /\ ~Stopped /\ Ask

\* -- what comes of it -----------------------------------------------------------
Left == {i \in 1..Len(named) : named[i].n \notin handled}
Outcome == CASE Stopped -> "op"
             [] ~Stopped /\ ~phandled /\ pos # <<>> -> "pos"
             [] ~Stopped /\ (phandled \/ pos = <<>>) /\ Left # {} -> "named"
             [] OTHER -> "ok"
\* nothing is dropped: on success everything given was asked for
Complete == Outcome = "ok" => (pos = <<>> \/ phandled) /\ \A i \in 1..Len(named) : named[i].n \in handled
Check ==
  /\ Complete
  /\ PrintT(ToJson([c |-> "args", build |-> build, pos |-> pos, named |-> [i \in 1..Len(named) |-> [n |-> Nm(named[i].n), v |-> named[i].v]],
                    ops |-> ops, log |-> log, stop |-> stop, out |-> Outcome,
                    left |-> LET RECURSIVE L(_) L(i) == IF i > Len(named) THEN <<>> ELSE (IF i \in Left THEN <<Nm(named[i].n)>> ELSE <<>>) \o L(i + 1) IN L(1)]))
=============================================================================
