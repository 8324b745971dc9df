------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* C12.  Plans under every kind of option combination.  In the model:      *)
(*  - options never change what is written apart from their own field      *)
(*    (Print is a function of the plan and the options, and the number of  *)
(*    reported problems is the same for all of them);                      *)
(*  - what is written with names unambiguous, literal types shown and the  *)
(*    output columns plain denotes the plan itself.                        *)
(* Mode "cube": every one of the 648 combinations on few plans.            *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS Lo, Hi, Depth, Mode
VARIABLES seed, op
Cube == [an : {"req", "all", "never"}, lt : {"req", "all", "never"}, em : BOOLEAN, bin : BOOLEAN, thr : {0, 1, 3}, ind : {"  ", "    ", "\t"}]
Init == seed \in Lo..(Lo + 15) /\ op \in (IF Mode = "cube" THEN Cube ELSE {GenOpts(Sub(seed, 77))})
Next == seed + 16 <= Hi /\ seed' = seed + 16 /\ op' = IF Mode = "cube" THEN op ELSE GenOpts(Sub(seed', 77))
Faithful(o) == o.an # "never" /\ o.lt # "never" /\ ~o.em
Case(o) ==
  LET p == TLCEval(GenPlan(Sub(seed, 7), seed % (Depth + 1)))
      d == TLCEval(PrintDoc(p, o))
      v == ~o.em /\ o.lt # "never" /\ ValidDoc(d)
      m == IF v THEN MeanDoc(d) ELSE p
  IN /\ Faithful(o) => (v /\ m = p)
     /\ PrintT(ToJson([c |-> "fmt", seed |-> seed, ast |-> p, opts |-> o, text |-> ToText(DocLines(d, Canon), o.ind),
                       back |-> IF v /\ o.ind = "  " THEN <<m>> ELSE <<>>]))
Check == Case(op)
=============================================================================
