------------------------------ MODULE Mutants ------------------------------
(***************************************************************************)
(* C02.  Documents near valid ones, in any spelling: the parser must read  *)
(* exactly what Mean says, and reject exactly what Valid excludes.         *)
(***************************************************************************)
EXTENDS Surf
CONSTANTS Lo, Hi, Depth
VARIABLE seed
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16
Check ==
  LET s == Sub(seed, 5)
      p == TLCEval(GenPlan(s, 1 + (seed % Depth)))
      o == [DefaultOpts EXCEPT !.an = PickQ(s, 901, <<"req", "all">>), !.lt = PickQ(s, 902, <<"req", "all">>), !.thr = PickQ(s, 903, <<1, 3, 100>>)]
      d == TLCEval(Mutant(PrintDoc(p, o), Sub(s, 904)))
      e == IF Flip(s, 907, 15) THEN TLCEval(Mutant(d, Sub(s, 908))) ELSE d
      y == GenStyle(Sub(s, 905))
      v == ValidDoc(e)
  IN PrintT(ToJson([c |-> "doc", seed |-> seed, ok |-> IF v THEN <<MeanDoc(e)>> ELSE <<>>, text |-> ToText(DocLines(e, y), "  ")]))
=============================================================================
