------------------------------- MODULE NamesX -------------------------------
(***************************************************************************)
(* C07.  Every small extension table against every spelling of a reference *)
(* to it.  Each action declares one more function, type or variation.      *)
(* In the model: what the formatter writes resolves to the same            *)
(* declaration, and an anchor is left out only where the rest is           *)
(* unambiguous.  Against the code: each reference the formatter writes,    *)
(* and each reference anyone might write.                                  *)
(***************************************************************************)
EXTENDS Doc
CONSTANTS Kind, MaxE, Read, Wide
VARIABLE tbl

Nms == IF Kind = "f" THEN (IF Wide THEN {"f", "F", "ff"} ELSE {"f", "F"}) ELSE (IF Wide THEN {"f", "F", "i64", "ff"} ELSE {"f", "F", "i64"})
SgPool == IF Kind = "f" THEN {"-", "", "a", "b"} ELSE {"-"}
En(kd, a, u, nm, sg) == [kd |-> kd, a |-> a, u |-> u, nm |-> nm, hs |-> sg # "-", sg |-> IF sg = "-" THEN "" ELSE sg]
Urns == <<[ua |-> 1, ut |-> "/u"], [ua |-> 2, ut |-> "/v"]>>
\* a declaration of another kind under the same name and anchor, to be kept apart
Shadow == IF Kind = "f" THEN <<En("t", 1, 1, "f", "-")>> ELSE <<En("f", 1, 1, "f", "-")>>
Init == tbl \in {[urns |-> Urns, exts |-> <<>>], [urns |-> Urns, exts |-> Shadow]}
Next == \E u \in 1..2, nm \in Nms, sg \in SgPool :
          LET n == Len(Exts(tbl, Kind)) IN \E a \in (1..MaxE) \ {e.a : e \in Range(Exts(tbl, Kind))} :
          n < MaxE /\ tbl' = [tbl EXCEPT !.exts = Append(@, En(Kind, a, u, nm, sg))]
I64 == [k |-> "s", n |-> "i64", nu |-> "R"]
TRead(t) == [k |-> "read", em |-> [m |-> "dir"], enh |-> <<>>, opt |-> <<>>, ins |-> <<>>, x |-> [tn |-> <<[id |-> "t"]>>, cols |-> <<[n |-> [id |-> "c"], t |-> t]>>]]
Use(a) == IF Kind = "f"
          THEN [k |-> "proj", em |-> [m |-> "dir"], enh |-> <<>>, opt |-> <<>>, ins |-> <<TRead(I64)>>,
                x |-> [es |-> <<[k |-> "call", f |-> a, args |-> <<>>, ty |-> <<I64>>]>>]]
          ELSE TRead([k |-> "udt", nu |-> "N", a |-> a, ps |-> <<>>])
PlanFor(a) == [ver |-> <<>>, tbl |-> SortTbl(tbl), roots |-> <<[rk |-> "rel", rel |-> Use(a)]>>]
\* -- formatter side
Anchors == {e.a : e \in {x \in Range(tbl.exts) : x.kd = Kind}}
Written(d) == IF Kind = "f" THEN Last(d.roots[1].rel.out).e.fn ELSE d.roots[1].rel.out[1].t
NoAnchor(f) == [f EXCEPT !.an = -1]
Matches(f) == IF Kind = "f" THEN FnMatches(tbl, f) ELSE TyMatches(tbl, f)
Resolves(f, a) == Matches(f) = {a}
Formats(a, v) ==
  LET o == [DefaultOpts EXCEPT !.an = v]
      p == PlanFor(a)
      d == TLCEval(PrintDoc(p, o))
      f == Written(d)
  IN /\ v # "never" => Resolves(f, a)                    \* and the text means the same plan:
     /\ v # "never" => (ValidDoc(d) /\ MeanDoc(d) = p)
     /\ (v = "req" /\ f.an # -1) => ~Resolves(NoAnchor(f), a)      \* anchors only where needed
     /\ PrintT(ToJson([c |-> "fmt", ast |-> p, opts |-> o, text |-> ToText(DocLines(d, Canon), "  "),
                       back |-> IF ValidDoc(d) THEN <<MeanDoc(d)>> ELSE <<>>]))
\* -- parser side: all spellings
Spell == IF Kind = "f" THEN {[nm |-> nm, hs |-> sg # "-", sg |-> IF sg = "-" THEN "" ELSE sg, an |-> an, ur |-> ur]
                             : nm \in Nms, sg \in SgPool, an \in {-1, 0, 1, 2, 3}, ur \in {-1, 1, 2}}
         ELSE {[k |-> "udtS", nu |-> "N", nm |-> nm, an |-> an, ur |-> ur, ps |-> <<>>] : nm \in Nms \cup {"h"}, an \in {-1, 0, 1, 2, 3}, ur \in {-1, 1, 2, 3}}
DocFor(f) ==
  LET base == PrintDoc(PlanFor(1), DefaultOpts)
      rd == [k |-> "read", out |-> <<[it |-> "c", n |-> [id |-> "c"], t |-> IF Kind = "f" THEN I64 ELSE f]>>, adds |-> <<>>, ins |-> <<>>,
             x |-> [tn |-> <<[id |-> "t"]>>, ar |-> "=>", refs |-> <<>>]]
      pj == [k |-> "proj", out |-> <<EI(Ref(0)), EI([k |-> "call", fn |-> f, args |-> <<>>, ty |-> <<I64>>])>>, adds |-> <<>>, ins |-> <<rd>>, x |-> NoX]
  IN [base EXCEPT !.roots = <<[rk |-> "rel", rel |-> IF Kind = "f" THEN pj ELSE rd]>>]
Parses(f) ==
  LET d == DocFor(f)
      v == ValidDoc(d)
  IN PrintT(ToJson([c |-> "doc", ok |-> IF v THEN <<MeanDoc(d)>> ELSE <<>>, text |-> ToText(DocLines(d, Canon), "  ")]))
Check == IF Read THEN \A f \in Spell : Parses(f)
         ELSE \A a \in Anchors \cup {9}, v \in {"req", "all", "never"} : a = 9 \/ Formats(a, v)
=============================================================================
