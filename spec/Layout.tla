------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* C14.  Every way of writing a document denotes the same plan and has the *)
(* same canonical text.                                                    *)
(***************************************************************************)
EXTENDS Surf
CONSTANTS Lo, Hi, Depth
VARIABLE seed
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16
Check ==
  LET s == Sub(seed, 3)
      p == TLCEval(GenPlan(s, seed % (Depth + 1)))
      o == [DefaultOpts EXCEPT !.an = PickQ(s, 901, <<"req", "all">>), !.lt = PickQ(s, 902, <<"req", "all">>), !.thr = PickQ(s, 903, <<0, 1, 2, 3, 100>>)]
      d == TLCEval(Variant(PrintDoc(p, o), Sub(s, 904)))
      y == GenStyle(Sub(s, 905))
  IN /\ ValidDoc(d) /\ MeanDoc(d) = p
     /\ PrintT(ToJson([c |-> "doc", seed |-> seed, ok |-> <<p>>, text |-> LaidOut(DocLines(d, y), y, GenLayout(Sub(s, 906))),
                       canon |-> Canonical(p, DefaultOpts)]))
=============================================================================
