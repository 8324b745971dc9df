-------------------------------- MODULE Junk --------------------------------
(***************************************************************************)
(* C09.  One fault somewhere in a document laid out at random.             *)
(* Mode "mut": a relation, addendum or root is changed; every line's own   *)
(*   validity is decided from the specification, and when exactly one line *)
(*   is at fault the error must name it.                                   *)
(* Mode "raw": a line of any section is cut, replaced by or preceded by    *)
(*   text no rule generates; the error must name that line.                *)
(* Mode "soup": a document and a list of character edits.  The text need   *)
(*   not denote anything; reading it must end without a panic, an error    *)
(*   must name a line of the text and show it, and a plan that is accepted *)
(*   must print without panic and, if it prints without error, read back.  *)
(***************************************************************************)
EXTENDS Surf
CONSTANTS Lo, Hi, Depth, Mode
VARIABLE seed
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16

\* -- whose fault is it --------------------------------------------------------
Before(r, i, at) == Cardinality({j \in 1..(i - 1) : r.adds[j].at = at})
AddBad(r, i, tbl) ==
  LET a == r.adds[i] IN
  \/ r.k = "xrel" /\ i = 1
  \/ ~("xn" \in DOMAIN a) \/ a.xn \notin Registered \/ ~ValidXA(a.xa, tbl, FALSE)
  \/ a.at = "Enh" /\ Before(r, i, "Enh") = 1
  \/ a.at = "Ext" /\ Before(r, i, "Ext") = (IF r.k = "extread" THEN 1 ELSE 0)
HeadBad(r, tbl) ==
  \/ ~HeadValid(r, tbl)
  \/ Len(r.ins) \notin Arity(r.k, IF r.k = "xrel" THEN r.x.xt ELSE "-")
  \/ r.k = "extread" /\ Count(r.adds, "Ext") = 0
\* the lines of a relation, in the order of ShowR, with their blame
RECURSIVE BlameR(_, _, _)
BlameR(r, y, tbl) ==
  Tab(LAMBDA i : i = 1 /\ HeadBad(r, tbl), Len(HeadLines(r, y)))
  \o Tab(LAMBDA i : AddBad(r, i, tbl), Len(r.adds))
  \o Flat(Map(LAMBDA c : BlameR(c, y, tbl), r.ins))
BlameRoot(r, y, tbl) == (IF r.rk = "root" THEN <<FALSE>> ELSE <<>>) \o BlameR(r.rel, y, tbl)
Blame(d, y) ==
  LET n == Len(d.roots)
      t == DocTbl(d) IN
  Tab(LAMBDA i : FALSE, Len(VerSec(d, y)) + Len(ExtSec(d, y)) + (IF d.gs = <<>> THEN 0 ELSE 1) + 1)
  \o Flat(MapI(LAMBDA i, r : BlameRoot(r, y, t) \o (IF i < n THEN <<FALSE>> ELSE <<>>), d.roots))
  \o (IF n = 0 THEN <<FALSE>> ELSE <<>>)

\* -- layout with one line marked (0: none) --------------------------------------
Marked(lines, lay, mk) ==
  LET n == Len(lines) IN
  MapI(LAMBDA i, l : <<IF Flip(lay.s, i + 20, lay.blank) /\ ~("cont" \in DOMAIN l) THEN <<IF Flip(lay.s, i + 90, 30) THEN PickQ(lay.s, i + 95, <<"   ", "\t", " \t", "  \t ">>) ELSE "", IF lay.crlf THEN "\r\n" ELSE "\n">> ELSE "",
                       IF i = mk THEN [mark |-> 1] ELSE "",
                       Rep("  ", l.ind), l.tx,
                       IF Flip(lay.s, i + 200, lay.trail) THEN PickQ(lay.s, i + 205, <<"  ", " ", "\t", "\t ", " \t\t">>) ELSE "",
                       IF i = n /\ lay.fin = 0 THEN "" ELSE IF lay.crlf THEN "\r\n" ELSE "\n">>, lines)

BaseDoc(s) ==
  LET p == TLCEval(GenPlan(s, 1 + R(s, 900, Depth)))
      o == [DefaultOpts EXCEPT !.an = PickQ(s, 901, <<"req", "all">>), !.lt = PickQ(s, 902, <<"req", "all">>), !.thr = PickQ(s, 903, <<0, 1, 3, 100>>)]
  IN TLCEval(Variant(PrintDoc(p, o), Sub(s, 904)))

Mut ==
  LET s == Sub(seed, 5)
      d == TLCEval(Mutant(BaseDoc(s), Sub(s, 910)))
      y == GenStyle(Sub(s, 905))
      b == TLCEval(Blame(d, y))
      S == {i \in 1..Len(b) : b[i]}
      v == ValidDoc(d)
      lines == DocLines(d, y)
  IN /\ Len(b) = Len(lines) /\ v = (S = {})
     /\ PrintT(ToJson([c |-> "doc", seed |-> seed, ok |-> IF v THEN <<MeanDoc(d)>> ELSE <<>>,
                       text |-> Marked(lines, GenLayout(Sub(s, 906)), IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0)]))

Junks == <<"@@@", "?!", "Nope[$0]", "Filter", "Filter[", "Filter[$0 => $0", "filter[$0 => $0]", "Read[t => a:]", "Read[=> a:i64]", "Project[$0,,$1]", "Project[$]", "Fetch[limit => $0]",
           "Aggregate[=> $0]", "Sort[$0 => $0]", "Join[&Inner => $0]", "Set[Union => $0]", "Cross[$0", "+ Nope:Alpha[]", "+ Enh:Alpha[", "+ Enh Alpha[]", "ExtensionLeaf[_]",
           "ExtensionMulti:[_]", "Read:Virtual[(1]", "Read:Virtual", "Root[", "Root", "Root[a b]", "== Plan", "=== Nope", "====", "]", "[]", "'", "\"", "# ", "@ ", "( )", "{}", "=", "é", "\\">>
\* the sort of each line: v version, s extension header, e declaration, b blank, p plan header, r plan
Sorts(d, y) ==
  LET n == Len(d.roots) IN
  Tab(LAMBDA i : "v", Len(VerSec(d, y)))
  \o (IF d.gs = <<>> THEN <<>> ELSE <<"s">> \o Flat(Map(LAMBDA g : <<"s">> \o Tab(LAMBDA i : "e", Len(g.ents)), d.gs)) \o <<"b">>) \o <<"p">>
  \o Flat(MapI(LAMBDA i, r : Tab(LAMBDA j : "r", Len(RootLines(r, y))) \o (IF i < n THEN <<"b">> ELSE <<>>), d.roots))
  \o (IF n = 0 THEN <<"b">> ELSE <<>>)
Raw ==
  LET s == Sub(seed, 6)
      d == BaseDoc(s)
      y == GenStyle(Sub(s, 905))
      l0 == TLCEval(DocLines(d, y))
      k == TLCEval(Sorts(d, y))
      \* a place that is not inside a relation spread over lines
      q == FilterQ(LAMBDA i : k[i] # "b" /\ ~("cont" \in DOMAIN l0[i]) /\ (i < Len(l0) => ~("cont" \in DOMAIN l0[i + 1])), Seq1(Len(l0)))
      i == q[R(s, 911, Len(q)) + 1]
      J == [ind |-> l0[i].ind, tx |-> PickQ(s, 912, Junks)]
      w == R(s, 913, 5)
      cont == w = 4 /\ k[i] = "r"             \* a continuation line with nothing to continue
      lines == CASE w = 1 -> ReplaceAt(l0, i, J)
                 [] w = 2 /\ k[i] = "r" -> ReplaceAt(l0, i, [ind |-> l0[i].ind, tx |-> Front(l0[i].tx)])
                 [] w = 3 /\ k[i] \in {"r", "e"} -> ReplaceAt(l0, i, [ind |-> l0[i].ind, tx |-> SubSeq(l0[i].tx, 2, Len(l0[i].tx))])
                 [] cont -> SubSeq(l0, 1, i - 1) \o <<Line(0, ""), [ind |-> PickQ(s, 915, <<0, 1, l0[i].ind>>), tx |-> PickQ(s, 916, <<"- (1)", "- ", "- => a:i64]", "- Read[t => a:i64]">>)]>> \o SubSeq(l0, i, Len(l0))
                 [] OTHER -> SubSeq(l0, 1, i - 1) \o <<J>> \o SubSeq(l0, i, Len(l0))
  IN /\ Len(k) = Len(l0)
     /\ PrintT(ToJson([c |-> "doc", seed |-> seed, ok |-> <<>>, text |-> Marked(lines, [GenLayout(Sub(s, 906)) EXCEPT !.trail = 0], IF cont THEN i + 1 ELSE i)]))

Chars == <<"[", "]", "(", ")", "<", ">", ",", ":", "=", "=>", "|>", "+>", "$", "$9", "#", "@", "'", "\"", "\\", "?", "&", "_", "-", "- ", "+", ".", "0", "1", "9", "-1", "a", "i64", "null", "true", "u!",
           " ", "  ", "\t", "\n", "\n  ", "\r", "\n=== Plan\n", "\n=== Extensions\n", "\n=== Version 1.2.3\n", "99999999999999999999", "1e400", "é", "=== ", "Read", "Root[", "Filter[", "Project[", "if_then", "::", "->", "limit=", "'2020-02-30'", ":date", "{}", "!{x}">>
Soup ==
  LET s == Sub(seed, 7)
      d == BaseDoc(s)
      y == GenStyle(Sub(s, 905))
      n == PickQ(s, 914, <<1, 1, 1, 2, 3, 6, 12>>)
  IN PrintT(ToJson([c |-> "soup", seed |-> seed, text |-> Marked(DocLines(d, y), GenLayout(Sub(s, 906)), 0),
                    edits |-> Tab(LAMBDA i : [at |-> R(Sub(s, 2000 + i), 1, 1000000), del |-> PickQ(Sub(s, 2000 + i), 2, <<0, 0, 1, 1, 2, 5, 30>>),
                                              ins |-> IF Flip(Sub(s, 2000 + i), 3, 65) THEN PickQ(Sub(s, 2000 + i), 4, Chars) ELSE "",
                                              len |-> IF Flip(Sub(s, 2000 + i), 5, 20) THEN R(Sub(s, 2000 + i), 6, 60) ELSE 0, frm |-> R(Sub(s, 2000 + i), 7, 1000000)], n)]))
Check == CASE Mode = "mut" -> Mut [] Mode = "raw" -> Raw [] OTHER -> Soup
=============================================================================
