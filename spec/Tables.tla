------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* C06.  Extension tables as plans carry them, conflicting ones included:  *)
(* what the formatter keeps and what it reports.  Each action adds one URN *)
(* or declaration to the table.                                            *)
(***************************************************************************)
EXTENDS Doc
CONSTANTS MaxU, MaxE
VARIABLE tbl

E(kd, a, u, nm, hs, sg) == [kd |-> kd, a |-> a, u |-> u, nm |-> nm, hs |-> hs, sg |-> sg]
UrnPool == <<[ua |-> 1, ut |-> "/u"], [ua |-> 2, ut |-> "/v"], [ua |-> 1, ut |-> "/w"], [ua |-> 0, ut |-> "/u"]>>
ExtPool == <<E("f", 1, 1, "f", FALSE, ""), E("f", 1, 2, "g", FALSE, ""), E("f", 2, 1, "f", TRUE, "i64"), E("f", 12, 1, "f", TRUE, ""), E("f", 0, 0, "h", FALSE, ""),
             E("t", 1, 1, "t", FALSE, ""), E("t", 1, 1, "f", FALSE, ""), E("t", 2, 2, "u!t", FALSE, ""), E("t", 100, 1, "x", FALSE, ""),
             E("v", 1, 1, "v", FALSE, ""), E("v", 2, 7, "v", FALSE, ""), E("f", 3, 1, "u!f", FALSE, ""), E("v", 3, 1, "u!v", FALSE, ""), E("other", 1, 1, "o", FALSE, "")>>
Strip == ("u!t" :> "t")
\* adding one declaration to what has been kept: <<kept', errors'>>
AddUrn(k, u) == IF \E i \in 1..Len(k.urns) : k.urns[i].ua = u.ua THEN [k EXCEPT !.errs = @ + 1] ELSE [k EXCEPT !.urns = Append(@, u)]
AddExt(k, e) ==
  IF e.kd = "other" \/ (e.kd # "t" /\ e.nm \in {"u!f", "u!v"}) THEN [k EXCEPT !.errs = @ + 1]
  ELSE LET dup  == \E i \in 1..Len(k.exts) : k.exts[i].kd = e.kd /\ k.exts[i].a = e.a
           miss == \A i \in 1..Len(k.urns) : k.urns[i].ua # e.u
           n    == IF e.nm \in DOMAIN Strip THEN [e EXCEPT !.nm = Strip[@]] ELSE e
       IN [k EXCEPT !.exts = IF dup THEN @ ELSE Append(@, n), !.errs = IF dup \/ miss THEN @ + 1 ELSE @]
RECURSIVE FoldU(_, _, _)
FoldU(k, q, i) == IF i > Len(q) THEN k ELSE FoldU(AddUrn(k, q[i]), q, i + 1)
RECURSIVE FoldE(_, _, _)
FoldE(k, q, i) == IF i > Len(q) THEN k ELSE FoldE(AddExt(k, q[i]), q, i + 1)
Kept(t) == FoldE(FoldU([urns |-> <<>>, exts |-> <<>>, errs |-> 0], t.urns, 1), t.exts, 1)

\* a plan that uses every anchor of the table, so that confusing two shows
Uses(t) ==
  LET fs == Dedup(Map(LAMBDA e : e.a, FilterQ(LAMBDA e : e.kd = "f", t.exts)))
      ts == Dedup(Map(LAMBDA e : e.a, FilterQ(LAMBDA e : e.kd = "t", t.exts)))
      cols == Map(LAMBDA a : [n |-> [id |-> "c"], t |-> [k |-> "udt", nu |-> "R", a |-> a, ps |-> <<>>]], ts)
      rd == [k |-> "read", em |-> [m |-> "dir"], enh |-> <<>>, opt |-> <<>>, ins |-> <<>>, x |-> [tn |-> <<[id |-> "t"]>>, cols |-> cols]]
  IN <<[rk |-> "rel", rel |-> [k |-> "proj", em |-> [m |-> "dir"], enh |-> <<>>, opt |-> <<>>, ins |-> <<rd>>,
        x |-> [es |-> Map(LAMBDA a : [k |-> "call", f |-> a, args |-> <<>>, ty |-> <<[k |-> "s", n |-> "i64", nu |-> "R"]>>], fs)]]]>>

Init == tbl = [urns |-> <<>>, exts |-> <<>>]
Next == \/ \E i \in 1..Len(UrnPool) : Len(tbl.urns) < MaxU /\ tbl.exts = <<>> /\ tbl' = [tbl EXCEPT !.urns = Append(@, UrnPool[i])]
        \/ \E i \in 1..Len(ExtPool) : Len(tbl.exts) < MaxE /\ tbl' = [tbl EXCEPT !.exts = Append(@, ExtPool[i])]
KeptTbl(k) == [urns |-> k.urns, exts |-> k.exts]
NeverMerged ==      \* what is kept has distinct anchors; nothing is dropped without an error
  LET k == Kept(tbl) IN
  /\ \A i, j \in 1..Len(k.exts) : i # j => ~(k.exts[i].kd = k.exts[j].kd /\ k.exts[i].a = k.exts[j].a)
  /\ k.errs = 0 => Len(k.exts) = Len(tbl.exts) /\ Len(k.urns) = Len(tbl.urns)
Emit ==
  LET k    == TLCEval(Kept(tbl))
      kt   == KeptTbl(k)
      show == [ver |-> <<>>, tbl |-> kt, roots |-> Uses(tbl)]
      d    == TLCEval(PrintDoc(show, DefaultOpts))
      sound == k.errs = 0 /\ ValidDoc(d)
      back == [ver |-> <<>>, tbl |-> SortTbl(kt), roots |-> Uses(tbl)]
  IN /\ sound => MeanDoc(d) = back
     /\ PrintT(ToJson([c |-> "fmt", ast |-> [ver |-> <<>>, tbl |-> tbl, roots |-> Uses(tbl)], opts |-> DefaultOpts,
                       text |-> <<[warn |-> k.errs], ToText(DocLines(d, Canon), "  ")>>,
                       back |-> IF sound THEN <<back>> ELSE <<>>]))
=============================================================================
