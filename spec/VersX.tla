-------------------------------- MODULE VersX --------------------------------
(* C03.  Version metadata of plans: when the section is written, and that it survives. *)
EXTENDS Gen
VARIABLE v
Nums == {0, 1, 63, U32}
Texts == {"", "a", "a b  c", "x: y", "=== Plan", "=== Version 1.2.3", "producer: z", "git_hash: q", "1.2.3", "#", "Read[t => a:i64]", "- a", "+ Enh:Alpha[]", ":", "'q'", "\"q\"", "a\\nb"}
NV == [maj |-> 0, min |-> 0, pat |-> 0, prod |-> "", git |-> ""]
Init == v \in {<<>>, <<NV>>}
Next == v # <<>> /\ \/ v[1].maj = 0 /\ \E n \in Nums : v' = <<[v[1] EXCEPT !.maj = n]>>
                    \/ v[1].min = 0 /\ \E n \in Nums : v' = <<[v[1] EXCEPT !.min = n]>>
                    \/ v[1].pat = 0 /\ \E n \in Nums : v' = <<[v[1] EXCEPT !.pat = n]>>
                    \/ v[1].prod = "" /\ \E t \in Texts : v' = <<[v[1] EXCEPT !.prod = t]>>
                    \/ v[1].git = "" /\ \E t \in Texts : v' = <<[v[1] EXCEPT !.git = t]>>
Rl == Mk("read", [m |-> "dir"], <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> <<>>])
Case(tbl, roots) ==
  LET p == [ver |-> v, tbl |-> tbl, roots |-> roots]
      d == PrintDoc(p, DefaultOpts) IN
  /\ (d.ver = <<>>) <=> (v = <<>> \/ v[1] = NV)
  /\ ValidDoc(d) /\ MeanDoc(d) = [p EXCEPT !.ver = d.ver]
  /\ PrintT(ToJson([c |-> "fmt", ast |-> p, opts |-> DefaultOpts, text |-> ToText(DocLines(d, Canon), "  "), back |-> <<MeanDoc(d)>>]))
NoTbl == [urns |-> <<>>, exts |-> <<>>]
Check == /\ Case(NoTbl, <<[rk |-> "rel", rel |-> Rl]>>)
         /\ Case([urns |-> <<[ua |-> 1, ut |-> "/u"]>>, exts |-> <<>>], <<>>)
=============================================================================
