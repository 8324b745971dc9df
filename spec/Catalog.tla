------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* C06, C07.  Histories of calls on an extension table built by hand: add  *)
(* a URN, add a declaration, in any order, with the answers to every query *)
(* after each history.  A refused duplicate changes nothing; a declaration *)
(* whose URN is unknown is kept and reported; a `u!` prefix belongs to     *)
(* types only and is not part of the name.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, UrnA, Anchors, UrnRefs, NameSet, Kd, Kd
VARIABLES urns, exts, hist
Nm(full) == CASE full = "f" -> [full |-> "f", base |-> "f"] [] full = "f:i" -> [full |-> "f:i", base |-> "f"]
              [] full = "f:" -> [full |-> "f:", base |-> "f"] [] full = "g" -> [full |-> "g", base |-> "g"]
              [] full = "g:i" -> [full |-> "g:i", base |-> "g"] [] OTHER -> [full |-> full, base |-> full]
HasSig(n) == n.full # n.base
Init == urns = {} /\ exts = {} /\ hist = <<>>

AddUrn(a, t) ==
  LET dup == \E u \in urns : u.a = a IN
  /\ urns' = IF dup THEN urns ELSE urns \cup {[a |-> a, t |-> t]}
  /\ exts' = exts
  /\ hist' = Append(hist, [op |-> "urn", a |-> a, t |-> t, res |-> IF dup THEN "dup" ELSE "ok"])
\* pre: whether the name is written with the u! prefix
AddExt(k, u, a, n, pre) ==
  LET dup == \E x \in exts : x.k = k /\ x.a = a
      mis == ~\E y \in urns : y.a = u
      bad == pre /\ k # "t" IN
  /\ exts' = IF dup \/ bad THEN exts ELSE exts \cup {[k |-> k, a |-> a, u |-> u, n |-> Nm(n)]}
  /\ urns' = urns
  /\ hist' = Append(hist, [op |-> "ext", k |-> k, u |-> u, a |-> a, n |-> IF pre THEN "u!" \o n ELSE n,
                           res |-> CASE bad -> "name" [] dup /\ mis -> "dupmissing" [] dup -> "dup" [] mis -> "missing" [] OTHER -> "ok"])
Next == /\ Len(hist) < MaxLen
        /\ \/ \E a \in UrnA, t \in {"x", "y"} : AddUrn(a, t)
           \/ \E k \in Kd, u \in UrnRefs, a \in Anchors, n \in NameSet, pre \in {TRUE, FALSE} : (pre => n = "f") /\ AddExt(k, u, a, n, pre)

\* -- what the table answers -------------------------------------------------------
Of(k) == {x \in exts : x.k = k}
At(k, a) == {x \in Of(k) : x.a = a}
The(S) == CHOOSE x \in S : TRUE
Pick1(S) == IF S = {} THEN [r |-> "missing"] ELSE IF Cardinality(S) > 1 THEN [r |-> "dup"] ELSE [r |-> "ok", a |-> The(S).a]
ByName(k, full) == Pick1({x \in Of(k) : x.n.full = full})
Unique(k, a, full) == IF At(k, a) = {} THEN "missing" ELSE IF The(At(k, a)).n.full # full THEN "mismatch"
                      ELSE IF \E x \in Of(k) : x.a # a /\ x.n.full = full THEN "no" ELSE "yes"
Info(a) == LET x == The(At("f", a)) IN
           [r |-> "ok", a |-> a, u |-> x.u, n |-> x.n.full, bu |-> ~\E y \in Of("f") : y.a # a /\ y.n.base = x.n.base,
            nu |-> ~\E y \in Of("f") : y.a # a /\ y.n.full = x.n.full]
Lookup(a) == IF At("f", a) = {} THEN [r |-> "missing"] ELSE Info(a)
Fits(x, n) == IF HasSig(n) THEN x.n.full = n.full ELSE x.n.base = n.base
Resolve(n, a) == IF a # 0 THEN (IF At("f", a) = {} THEN [r |-> "missing"] ELSE IF Fits(The(At("f", a)), n) THEN Info(a) ELSE [r |-> "mismatch"])
                 ELSE LET S == {x \in Of("f") : Fits(x, n)} IN
                      IF S = {} THEN [r |-> "missing"] ELSE IF Cardinality(S) > 1 THEN [r |-> "dup"] ELSE Info(The(S).a)
AllN == {"f", "f:i", "f:", "g"}
AllA == Anchors \cup {7}
Queries ==
  [urn  |-> {[a |-> a, r |-> IF \E u \in urns : u.a = a THEN <<(CHOOSE u \in urns : u.a = a).t>> ELSE <<>>] : a \in UrnA \cup {7}},
   anc  |-> {[k |-> k, a |-> a, r |-> IF At(k, a) = {} THEN <<>> ELSE <<[u |-> The(At(k, a)).u, n |-> The(At(k, a)).n]>>] : k \in Kd, a \in AllA},
   nam  |-> {[k |-> k, n |-> n, r |-> ByName(k, n)] : k \in Kd, n \in AllN},
   uni  |-> {[k |-> k, a |-> a, n |-> n, r |-> Unique(k, a, n)] : k \in Kd, a \in AllA, n \in AllN},
   look |-> {[a |-> a, r |-> Lookup(a)] : a \in AllA},
   reso |-> {[n |-> n, a |-> a, r |-> Resolve(Nm(n), a)] : n \in AllN, a \in {0} \cup AllA}]
\* -- laws --------------------------------------------------------------------------
Keyed == /\ \A x, y \in urns : x.a = y.a => x = y
         /\ \A x, y \in exts : (x.a = y.a /\ x.k = y.k) => x = y
\* every declaration is reachable by its full name and anchor, and by the name alone exactly when that is unambiguous
Reachable == \A x \in Of("f") : /\ Resolve(x.n, x.a) = Info(x.a)
                                /\ Resolve(Nm(x.n.base), x.a) = Info(x.a)
                                /\ Info(x.a).bu => Resolve(Nm(x.n.base), 0) = Info(x.a)
Check == Keyed /\ Reachable /\ (Len(hist) = MaxLen => PrintT(ToJson([c |-> "cat", ops |-> hist, urns |-> urns, exts |-> exts, q |-> Queries])))
=============================================================================
