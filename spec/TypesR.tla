------------------------------- MODULE TypesR -------------------------------
(***************************************************************************)
(* C11.  Deep random type terms over random extension tables (names shared *)
(* between types, names of built-in types), in every position, in the      *)
(* canonical and in other spellings.                                       *)
(***************************************************************************)
EXTENDS Surf
CONSTANTS Lo, Hi, Depth
VARIABLE seed
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16
Check ==
  LET s == Sub(seed, 11)
      tb == TLCEval(GenTbl(Sub(s, 1)))
      T(i) == GenT(Sub(s, i), Depth, tb)
      rd == Mk("read", [m |-> "dir"], <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> Tab(LAMBDA i : [n |-> GenName(Sub(s, 60 + i)), t |-> T(i)], 3)])
      es == Tab(LAMBDA i : IF i % 3 = 0 \/ FnAnchors(tb) = <<>> THEN [k |-> "cast", e |-> Ref(0), fb |-> i % 3, to |-> T(10 + i)]
                           ELSE IF i % 3 = 1 THEN [k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> T(20 + i)]
                           ELSE [k |-> "call", f |-> PickQ(s, 30 + i, FnAnchors(tb)), args |-> <<>>, ty |-> <<T(40 + i)>>], 6)
      xr == Mk("xrel", [m |-> "dir"], <<Mk("proj", [m |-> "dir"], <<rd>>, [es |-> es])>>, [xt |-> "single", item |-> [xn |-> [id |-> "Beta"],
              xa |-> [pos |-> <<>>, named |-> <<>>, cols |-> Tab(LAMBDA i : [ck |-> "n", n |-> GenName(Sub(s, 70 + i)), t |-> T(50 + i)], 3)]]])
      p == TLCEval([ver |-> <<>>, tbl |-> tb, roots |-> <<[rk |-> "rel", rel |-> xr]>>])
      d == TLCEval(PrintDoc(p, DefaultOpts))
      y == GenStyle(Sub(s, 905))
      tx == ToText(DocLines(d, Canon), "  ")
  IN /\ ValidDoc(d) /\ MeanDoc(d) = p
     /\ PrintT(ToJson([c |-> "rt", seed |-> seed, ast |-> p, text |-> tx]))
     /\ PrintT(ToJson([c |-> "doc", seed |-> seed, ok |-> <<p>>, canon |-> tx, text |-> ToText(DocLines(d, y), "  ")]))
=============================================================================
