-------------------------------- MODULE EmitR --------------------------------
(* C05, deep: random stacks of relations with random mappings, most of them in range. *)
EXTENDS EmitK
CONSTANTS Lo, Hi, Depth
VARIABLE seed
GEm(s, D) ==
  LET q == R(s, 1, 10)
      hi == IF Flip(s, 2, 8) THEN D + 1 ELSE D IN
  CASE q \in 0..2 -> Dir
    [] q = 3 -> [m |-> "none"]
    [] q = 4 -> [m |-> "map", is |-> RefsUpTo(D)]
    [] q = 5 /\ D > 0 -> [m |-> "map", is |-> RefsUpTo(R(s, 3, D))]
    [] q = 6 -> [m |-> "map", is |-> Tab(LAMBDA i : D - i, D)]
    [] hi = 0 -> Dir
    [] OTHER -> [m |-> "map", is |-> Tab(LAMBDA i : R(s, 10 + i, hi), PickQ(s, 4, <<1, 1, 2, 3, 4, 5>>))]
RECURSIVE GK(_, _)
GK(s, d) ==
  LET q == R(s, 1, 16)
      c == GK(Sub(s, 1), d - 1)
      E(x) == [x EXCEPT !.em = GEm(Sub(s, 2), Direct(x))] IN
  IF d <= 0 \/ q = 0
  THEN CASE R(s, 3, 6) = 0 -> Virt(R(s, 4, 4)) [] R(s, 3, 6) = 1 -> XRead(R(s, 4, 4)) [] R(s, 3, 6) = 2 -> X("leaf", "Beta", R(s, 4, 4), <<>>)
         [] R(s, 3, 6) = 3 -> Read(3, [m |-> "map", is |-> Tab(LAMBDA i : R(s, 20 + i, 3), R(s, 5, 4))]) [] OTHER -> Read(R(s, 4, 5), Dir)
  ELSE CASE q \in 1..3 -> E(Un(PickQ(s, 3, <<"filter", "sort", "fetch">>), 0, Dir, c))
         [] q \in 4..6 -> E(Un("proj", R(s, 3, 4), Dir, c))
         [] q \in 7..8 -> E(Un("agg", R(s, 3, 9), Dir, c))
         [] q = 9 -> X(PickQ(s, 3, <<"single", "multi">>), "Ctx", R(s, 4, 4), <<c>>)
         [] q = 10 -> X("multi", "Ctx", R(s, 4, 4), Tab(LAMBDA i : GK(Sub(s, 10 + i), d \div 2), R(s, 5, 4)))
         [] q = 11 -> E(Bin("cross", Dir, c, GK(Sub(s, 4), d \div 2)))
         [] q = 12 -> E(Bin("set", Dir, c, Read(OutWidth(c), Dir)))
         [] OTHER -> E(Bin(PickQ(s, 3, JoinTypes), Dir, IF Flip(s, 6, 50) THEN c ELSE GK(Sub(s, 4), d \div 2), IF Flip(s, 6, 50) THEN GK(Sub(s, 4), d \div 2) ELSE c))
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16
Check == PrintT(ToJson(Case(TLCEval(GK(Sub(seed, 6), 1 + (seed % Depth))))))
=============================================================================
