--------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* Documents: version, extension table and plan sections, line by line.    *)
(*                                                                         *)
(* plan  [ver |-> <<>> / <<[maj, min, pat, prod, git]>>, tbl, roots]       *)
(*   root  [rk |-> "root", names, rel] | [rk |-> "rel", rel] | [rk |-> "none"]*)
(* surface document  [ver, gs, roots], gs = the groups of the extension    *)
(*   section: [sub |-> "URNs:", ents |-> <<[ua, ut]>>] and                 *)
(*   [sub |-> "Functions:" / "Types:" / "Type Variations:", ents |-> <<entry>>]*)
(* line  [ind, tx]   options  [an, lt, em, bin, thr, ind]                  *)
(***************************************************************************)
EXTENDS Rels

DefaultOpts == [an |-> "req", lt |-> "req", em |-> FALSE, bin |-> FALSE, thr |-> 3, ind |-> "  "]
VerboseOpts == [an |-> "all", lt |-> "all", em |-> FALSE, bin |-> TRUE, thr |-> 3, ind |-> "  "]

Insert(q, x, Le(_, _)) ==
  LET S == {i \in 1..Len(q) : ~Le(q[i], x)}
      i == IF S = {} THEN Len(q) + 1 ELSE CHOOSE j \in S : \A m \in S : j <= m
  IN SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
SortQ(q, Le(_, _)) ==
  LET RECURSIVE go(_)
      go(n) == IF n = 0 THEN <<>> ELSE Insert(go(n - 1), q[n], Le)
  IN go(Len(q))
KindRank == ("f" :> 1) @@ ("t" :> 2) @@ ("v" :> 3)
UrnLe(a, b) == a.ua <= b.ua
ExtLe(a, b) == a.a < b.a \/ (a.a = b.a /\ KindRank[a.kd] <= KindRank[b.kd])
SortTbl(t)  == [urns |-> SortQ(t.urns, UrnLe), exts |-> SortQ(t.exts, ExtLe)]

SubOf == ("f" :> "Functions:") @@ ("t" :> "Types:") @@ ("v" :> "Type Variations:")
Groups(tbl) ==
  LET t == SortTbl(tbl)
      G(kd) == LET q == Exts(t, kd) IN IF q = <<>> THEN <<>> ELSE <<[sub |-> SubOf[kd], ents |-> q]>>
  IN (IF t.urns = <<>> THEN <<>> ELSE <<[sub |-> "URNs:", ents |-> t.urns]>>) \o G("f") \o G("t") \o G("v")
PrintRoot(r, tbl, o) == IF r.rk = "none" THEN r ELSE [r EXCEPT !.rel = PrintR(@, tbl, o)]
NoVersion(v) == v.maj = 0 /\ v.min = 0 /\ v.pat = 0 /\ v.prod = "" /\ v.git = ""
PrintDoc(p, o) == [ver |-> FilterQ(LAMBDA v : ~NoVersion(v), p.ver), gs |-> Groups(p.tbl),
                   roots |-> Map(LAMBDA r : PrintRoot(r, p.tbl, o), p.roots)]

\* -- Show ---------------------------------------------------------------------
W3(n) == IF n >= 0 /\ n < 10 THEN <<"  ", n>> ELSE IF n >= 0 /\ n < 100 THEN <<" ", n>> ELSE n
AnchorW(c, n, y) == IF y = Canon THEN <<c, W3(n)>> ELSE <<c, Sp(y.an), n>>
ShowEnt(e, y) ==
  IF "ua" \in DOMAIN e THEN <<AnchorW("@", e.ua, y), ":", IF y = Canon THEN " " ELSE Sp(y.cl), e.ut>>
  ELSE <<AnchorW("#", e.a, y), IF y = Canon THEN " " ELSE Sp(y.bc), AnchorW("@", e.u, y),
         IF y = Canon THEN ": " ELSE <<Sp(y.bc), ":", Sp(y.ac)>>,
         IF e.kd = "t" /\ y.ub = 1 THEN "u!" ELSE "", FullText(e)>>
VerLines(v, y) ==
  <<Line(0, <<"=== Version ", v.maj, ".", v.min, ".", v.pat>>)>>
  \o (IF v.prod = "" THEN <<>> ELSE <<Line(1, <<"producer: ", v.prod>>)>>)
  \o (IF v.git = "" THEN <<>> ELSE <<Line(1, <<"git_hash: ", v.git>>)>>)
GroupLines(g, y) == <<Line(0, g.sub)>> \o Map(LAMBDA e : Line(1, ShowEnt(e, y)), g.ents)
RootLines(r, y) ==
  CASE r.rk = "none" -> <<Line(0, [bad |-> "PlanRelType"])>>
    [] r.rk = "rel"  -> ShowR(r.rel, 0, y)
    [] OTHER -> <<Line(0, <<"Root[", Commas(Map(LAMBDA n : ShowName(n, y), r.names), y), "]">>)>> \o ShowR(r.rel, 1, y)
\* sections as separate lists of lines; a blank line separates Extensions from
\* Plan and the roots from each other in canonical text
VerSec(d, y) == Flat(Map(LAMBDA v : VerLines(v, y), d.ver))
ExtSec(d, y) == IF d.gs = <<>> THEN <<>> ELSE <<Line(0, "=== Extensions")>> \o Flat(Map(LAMBDA g : GroupLines(g, y), d.gs))
DocLines(d, y) ==
  LET n == Len(d.roots) IN
  VerSec(d, y) \o ExtSec(d, y) \o (IF d.gs = <<>> THEN <<>> ELSE <<Line(0, "")>>)
  \o <<Line(0, "=== Plan")>>
  \o Flat(MapI(LAMBDA i, r : RootLines(r, y) \o (IF i < n THEN <<Line(0, "")>> ELSE <<>>), d.roots))
  \o (IF n = 0 THEN <<Line(0, "")>> ELSE <<>>)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
ToText(lines, ind) == Map(LAMBDA l : <<Rep(ind, l.ind), l.tx, "\n">>, lines)
Canonical(p, o)    == ToText(DocLines(PrintDoc(p, o), Canon), o.ind)

\* layout: line ending, extra blank lines and trailing blanks, by seed
GenLayout(s) == [crlf |-> Flip(s, 1, 25), blank |-> PickQ(s, 2, <<0, 0, 20, 50>>), trail |-> PickQ(s, 3, <<0, 0, 30>>), s |-> s,
                 fin |-> R(s, 4, 3)]
\* continuation lines ("- ...") stay glued to the line before them
LaidOut(lines, y, lay) ==
  LET n == Len(lines) IN
  MapI(LAMBDA i, l : <<IF Flip(lay.s, i + 20, lay.blank) /\ ~("cont" \in DOMAIN l) THEN <<IF Flip(lay.s, i + 90, 30) THEN PickQ(lay.s, i + 95, <<"   ", "\t", " \t", "  \t ">>) ELSE "", IF lay.crlf THEN "\r\n" ELSE "\n">> ELSE "",
                       Rep("  ", l.ind), l.tx,
                       IF Flip(lay.s, i + 200, lay.trail) THEN PickQ(lay.s, i + 205, <<"  ", " ", "\t", "\t ", " \t\t">>) ELSE "",
                       IF i = n /\ lay.fin = 0 THEN "" ELSE IF lay.crlf THEN "\r\n" ELSE "\n">>, lines)

\* -- Valid / Mean -----------------------------------------------------------------
DocTbl(d) ==
  SortTbl([urns |-> Flat(Map(LAMBDA g : IF g.sub = "URNs:" THEN g.ents ELSE <<>>, d.gs)),
           exts |-> Flat(Map(LAMBDA g : IF g.sub = "URNs:" THEN <<>> ELSE g.ents, d.gs))])
ValidRoot(r, tbl) == r.rk # "none" /\ ValidR(r.rel, tbl)
ValidDoc(d) == LET t == DocTbl(d) IN \A i \in 1..Len(d.roots) : ValidRoot(d.roots[i], t)
MeanDoc(d) == LET t == DocTbl(d) IN
              [ver |-> d.ver, tbl |-> t, roots |-> Map(LAMBDA r : [r EXCEPT !.rel = MeanR(@, t)], d.roots)]
=============================================================================
