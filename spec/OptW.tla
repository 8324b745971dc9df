-------------------------------- MODULE OptW --------------------------------
(***************************************************************************)
(* C12, C14.  How a virtual table is laid out: on one line below the       *)
(* threshold, one row per line from there on.  Every number of rows        *)
(* against every threshold around it, under every depth and indent; and    *)
(* the two tables of a join, each by its own length.                       *)
(***************************************************************************)
EXTENDS EmitK
CONSTANTS MaxRows, MaxDeep
VARIABLES rows, thr, deep, ind, twin

Table(m) == Mk("virt", Dir, <<>>, [cols |-> KCols(2, "v"), rows |-> Tab(LAMBDA i : <<IntE(i), IntE(m - i)>>, m), flt |-> <<>>])
RECURSIVE Under(_, _)
Under(r, k) == IF k = 0 THEN r ELSE Mk("filter", Dir, <<Under(r, k - 1)>>, [c |-> <<Ref(0)>>])
\* thresholds: none, below, at and above the number of rows, and out of reach
Thrs(m) == {0, 1, 2, 3, 2147483647} \cup {x \in {m - 1, m, m + 1, m + 2} : x >= 0}
Init == /\ (\/ rows \in 0..MaxRows /\ deep \in 0..MaxDeep /\ ind \in {"", " ", "  ", "    ", "\t", " \t"} /\ twin \in {-1, 0, 2, 3, 9}
            \/ rows \in {31, 32, 63, 64, 100, 127, 128, 255, 256, 257} /\ deep = 0 /\ ind = "  " /\ twin = -1)
        /\ thr = -1
Next == thr = -1 /\ thr' \in Thrs(rows) /\ UNCHANGED <<rows, deep, ind, twin>>
Spec == Init /\ [][Next]_<<rows, thr, deep, ind, twin>>
Emit == thr = -1 \/
  LET t == Table(rows)
      r == IF twin = -1 THEN t ELSE Mk("join", Dir, <<t, Table(twin)>>, [jt |-> "Inner", c |-> <<Ref(0)>>, pf |-> <<>>])
      p == PlanOf(Under(r, deep))
      o == [DefaultOpts EXCEPT !.thr = thr, !.ind = ind]
      d == TLCEval(PrintDoc(p, o)) IN
  /\ ValidDoc(d) /\ MeanDoc(d) = p
  /\ PrintT(ToJson([c |-> "fmt", ast |-> p, opts |-> o, text |-> ToText(DocLines(d, Canon), ind), back |-> IF ind = "  " THEN <<p>> ELSE <<>>]))
=============================================================================
