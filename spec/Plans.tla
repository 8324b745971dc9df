-------------------------------- MODULE Plans --------------------------------
(***************************************************************************)
(* C01.  A family of supported plans, one per state.  In the model: what   *)
(* Print writes is valid and means the plan.  Against the code: each plan  *)
(* and its text are emitted for replay.                                    *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS Lo, Hi, Depth
VARIABLE seed
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16
Check ==
  LET p == TLCEval(GenPlan(seed, seed % (Depth + 1)))
      d == TLCEval(PrintDoc(p, DefaultOpts))
  IN /\ ValidDoc(d) /\ MeanDoc(d) = p
     /\ PrintT(ToJson([c |-> "rt", seed |-> seed, ast |-> p, text |-> ToText(DocLines(d, Canon), "  ")]))
     \* the same plan as older writers wrote it: plain counts, grouping expressions inside each grouping set, day
     \* intervals with microseconds, no mention of a direct output
     /\ seed % 3 = 0 => PrintT(ToJson([c |-> "fmt", older |-> 1 + (R(seed, 901, 2)), seed |-> seed, ast |-> p, text |-> ToText(DocLines(d, Canon), "  "), opts |-> DefaultOpts, back |-> <<p>>]))
=============================================================================
