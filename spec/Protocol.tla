------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* C03 and C06.  The line protocol of a document as a state machine: what  *)
(* each line does in each section.  Every sequence of lines of a small     *)
(* alphabet is a behaviour; each state is replayed: the parser must accept *)
(* exactly the error-free sequences, produce the plan the state holds, and *)
(* otherwise name the line that failed.                                    *)
(*                                                                         *)
(* Alphabet "sec" exercises sections and version lines, "ext" declarations.*)
(***************************************************************************)
EXTENDS Doc
CONSTANTS Alpha, MaxLen, Prefixes, Lead
\* Lead: blank lines before everything else
VARIABLES lines, st

L(cl, ind, tx)  == [cl |-> cl, ind |-> ind, tx |-> tx]
Ver(a, b, c)    == [cl |-> "ver", ind |-> 0, tx |-> <<"=== Version ", a, ".", b, ".", c>>, v |-> [maj |-> a, min |-> b, pat |-> c, prod |-> "", git |-> ""]]
Urn(a, t)       == [cl |-> "urn", ind |-> 1, tx |-> <<"@", a, ": ", t>>, e |-> [ua |-> a, ut |-> t]]
Fn(a, u, n)     == [cl |-> "dec", ind |-> 1, tx |-> <<"#", a, " @", u, ": ", n>>, e |-> [a |-> a, u |-> u, nm |-> n, hs |-> FALSE, sg |-> ""]]
FnS(a, u, n, g) == [cl |-> "dec", ind |-> 1, tx |-> <<"#", a, " @", u, ": ", n, ":", g>>, e |-> [a |-> a, u |-> u, nm |-> n, hs |-> TRUE, sg |-> g]]
UTy(a, u, n)    == [cl |-> "udec", ind |-> 1, tx |-> <<"#", a, " @", u, ": u!", n>>, e |-> [a |-> a, u |-> u, nm |-> n, hs |-> FALSE, sg |-> ""]]
RdRel(n) == [k |-> "read", em |-> [m |-> "dir"], enh |-> <<>>, opt |-> <<>>, ins |-> <<>>,
             x |-> [tn |-> <<[id |-> n]>>, cols |-> <<[n |-> [id |-> "a"], t |-> [k |-> "s", n |-> "i64", nu |-> "R"]]>>]]
Rd(n) == [cl |-> "rel", ind |-> 0, tx |-> <<"Read[", n, " => a:i64]">>, r |-> RdRel(n)]

Blanks == <<L("blank", 0, ""), L("blank", 0, "   ")>>
Junk   == <<L("junk", 0, "junk"), L("junk", 0, " === Plan"), L("junk", 1, "=== Plan")>>
SecAlpha ==
  <<Ver(0, 63, 1), Ver(0, 0, 0), Ver(2, 0, 7),
    L("bad", 0, "=== Version 1.2"), L("bad", 0, "=== Version"), L("bad", 0, "=== Version 1.2.3.4"), L("bad", 0, "=== Version 1.x.3"),
    L("bad", 0, "=== Version 1..3"), L("bad", 0, "=== Version 4294967296.0.0"), L("bad", 0, "=== Version 1.2.-3"), L("bad", 0, "=== Versions 1.2.3"), L("bad", 0, "=== Version1.2.3"),
    L("hext", 0, "=== Extensions"), L("hplan", 0, "=== Plan"),
    L("bad", 0, "=== Other"), L("bad", 0, "=== plan"), L("bad", 0, "===Plan"), L("bad", 0, "==="), L("bad", 0, "=== Extensions:"), L("bad", 0, "=== Plan x"),
    [cl |-> "prod", ind |-> 1, tx |-> "producer: acme one", v |-> "acme one"], [cl |-> "prod", ind |-> 1, tx |-> "producer:", v |-> ""],
    [cl |-> "prod", ind |-> 1, tx |-> "producer:   x: y ", v |-> "x: y"],
    [cl |-> "git", ind |-> 1, tx |-> "git_hash: 0abc", v |-> "0abc"], [cl |-> "git", ind |-> 1, tx |-> "git_hash:def", v |-> "def"],
    L("junk", 0, "producer: acme"), L("junk", 0, "# note"), L("junk", 2, "producer: acme"), L("junk", 1, "foo: bar"), L("junk", 1, "producer"), L("junk", 1, "Producer: x"),
    L("sub", 0, "URNs:"), Urn(1, "/u"), Rd("t"), Rd("s"), L("junk", 1, "Reed[t]")>> \o Blanks \o Junk
ExtAlpha ==
  <<L("sub", 0, "URNs:"), L("sub", 0, "Functions:"), L("sub", 0, "Types:"), L("sub", 0, "Type Variations:"),
    Urn(1, "/u"), Urn(2, "/v"), Urn(1, "/w"), Urn(2, "/u"),
    Fn(1, 1, "f"), Fn(2, 2, "f"), Fn(1, 2, "g"), FnS(2, 1, "f", "i64"), FnS(U32, 1, "g", ""), UTy(1, 1, "t"), UTy(U32, 2, "g"),
    L("hplan", 0, "=== Plan"), Rd("t"),
    L("junk", 0, "functions:"), L("junk", 1, "URNs:"), L("junk", 0, "@1: /u"), L("junk", 2, "@3: /u"), L("junk", 0, "#1 @1: f"),
    L("junk", 1, "@3 /u"), L("junk", 1, "@3:"), L("junk", 1, "@3: /u x"), L("junk", 1, "#4 @1: f g"), L("junk", 1, "#4: f"), L("junk", 1, "#4 @1: "),
    L("junk", 1, "#x @1: f"), L("junk", 1, "#4 @1: 1f"), L("junk", 1, "#4294967296 @1: f"), L("junk", 1, "@4294967296: f"), L("junk", 1, "#-1 @1: f"),
    L("junk", 1, "#4 @1: f:i64_"), L("junk", 1, "#4 @1: f#2"), L("bad", 0, "=== Extensions")>> \o Blanks
Alphabet == IF Alpha = "sec" THEN SecAlpha ELSE ExtAlpha

St0 == [ph |-> 0, sub |-> "", err |-> 0, ver |-> <<>>, urns |-> <<>>, exts |-> <<>>, rels |-> <<>>]
Fail(s, n) == [s EXCEPT !.err = n]
KindOf == ("Functions:" :> "f") @@ ("Types:" :> "t") @@ ("Type Variations:" :> "v")
Declare(s, e, n) ==
  LET kd == KindOf[s.sub] IN
  IF (\E i \in 1..Len(s.exts) : s.exts[i].kd = kd /\ s.exts[i].a = e.a) \/ (\A i \in 1..Len(s.urns) : s.urns[i].ua # e.u) \/ (kd # "f" /\ e.hs)
  THEN Fail(s, n)
  ELSE [s EXCEPT !.exts = Append(@, [kd |-> kd, a |-> e.a, u |-> e.u, nm |-> e.nm, hs |-> e.hs, sg |-> e.sg])]
\* line number n does this in state s
Step(s, l, n) ==
  CASE s.err # 0     -> s
    [] l.cl = "blank" -> s
    [] l.cl \in {"bad", "junk"} -> Fail(s, n)
    [] l.cl = "ver"  -> IF s.ph >= 1 THEN Fail(s, n) ELSE [s EXCEPT !.ph = 1, !.ver = <<l.v>>]
    [] l.cl = "hext" -> IF s.ph >= 2 THEN Fail(s, n) ELSE [s EXCEPT !.ph = 2, !.sub = ""]
    [] l.cl = "hplan" -> IF s.ph >= 3 THEN Fail(s, n) ELSE [s EXCEPT !.ph = 3]
    [] l.cl = "prod" -> IF s.ph # 1 THEN Fail(s, n) ELSE [s EXCEPT !.ver[1].prod = l.v]
    [] l.cl = "git"  -> IF s.ph # 1 THEN Fail(s, n) ELSE [s EXCEPT !.ver[1].git = l.v]
    [] l.cl = "sub"  -> IF s.ph # 2 THEN Fail(s, n) ELSE [s EXCEPT !.sub = l.tx]
    [] l.cl = "urn"  -> IF s.ph # 2 \/ s.sub # "URNs:" \/ (\E i \in 1..Len(s.urns) : s.urns[i].ua = l.e.ua) THEN Fail(s, n)
                        ELSE [s EXCEPT !.urns = Append(@, l.e)]
    [] l.cl = "dec"  -> IF s.ph # 2 \/ s.sub \notin DOMAIN KindOf THEN Fail(s, n) ELSE Declare(s, l.e, n)
    [] l.cl = "udec" -> IF s.ph # 2 \/ s.sub # "Types:" THEN Fail(s, n) ELSE Declare(s, l.e, n)
    [] l.cl = "rel"  -> IF s.ph # 3 THEN Fail(s, n) ELSE [s EXCEPT !.rels = Append(@, l.r)]

RECURSIVE RunFrom(_, _, _)
RunFrom(s, q, n) == IF n > Len(q) THEN s ELSE RunFrom(Step(s, q[n], n), q, n + 1)

PlanOf(s) == [ver |-> s.ver, tbl |-> SortTbl([urns |-> s.urns, exts |-> s.exts]), roots |-> Map(LAMBDA r : [rk |-> "rel", rel |-> r], s.rels)]

HE == L("hext", 0, "=== Extensions")
HP == L("hplan", 0, "=== Plan")
Starts ==
  CASE Prefixes = "none" -> {<<>>}
    [] Prefixes = "sec"  -> {<<>>, <<Ver(1, 2, 3)>>, <<HE>>, <<HE, HP>>, <<L("blank", 0, ""), HP>>}
    [] OTHER -> {<<HE>>, <<HE, L("sub", 0, "URNs:"), Urn(1, "/u")>>,
                 <<HE, L("sub", 0, "URNs:"), Urn(1, "/u"), Urn(2, "/v"), L("sub", 0, "Functions:")>>,
                 <<HE, L("sub", 0, "URNs:"), Urn(1, "/u"), L("sub", 0, "Functions:"), Fn(1, 1, "f"), L("sub", 0, "Types:")>>,
                 <<HE, L("sub", 0, "URNs:"), Urn(2, "/u"), L("sub", 0, "Type Variations:"), Fn(2, 2, "x")>>}
Init == \E q \in Starts : lines = q /\ st = RunFrom(St0, q, 1)
Next == \E i \in 1..Len(Alphabet) :
          /\ Len(lines) < MaxLen
          /\ st.err = 0 \/ st.err = Len(lines)         \* one line beyond a failure
          /\ lines' = Append(lines, Alphabet[i])
          /\ st' = Step(st, Alphabet[i], Len(lines) + 1)

TypeOK == /\ st = RunFrom(St0, lines, 1)
          /\ st.err \in 0..Len(lines) /\ st.ph \in 0..3
          \* no two declarations of a kind share an anchor, and every URN reference is declared
          /\ \A i, j \in 1..Len(st.exts) : (i # j /\ st.exts[i].kd = st.exts[j].kd) => st.exts[i].a # st.exts[j].a
          /\ \A i \in 1..Len(st.exts) : \E j \in 1..Len(st.urns) : st.urns[j].ua = st.exts[i].u
Emit ==
  LET p == PlanOf(st)
      text == <<Rep("\n", Lead), MapI(LAMBDA i, l : <<IF i = st.err THEN [mark |-> 1] ELSE "", Rep("  ", l.ind), l.tx, "\n">>, lines)>>
  IN IF st.err = 0
     THEN PrintT(ToJson([c |-> "doc", ok |-> <<p>>, text |-> text, canon |-> Canonical(p, DefaultOpts)]))
     ELSE PrintT(ToJson([c |-> "doc", ok |-> <<>>, text |-> text]))
=============================================================================
