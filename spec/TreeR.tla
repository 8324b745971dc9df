-------------------------------- MODULE TreeR --------------------------------
(* C04, deep: random well-formed forests of lines, most of them then disturbed in one or two places; *)
(* the stack machine of Tree judges each of them line by line.                                      *)
EXTENDS Tree, SequencesExt
CONSTANTS Lo, Hi, Depth
VARIABLE seed
L(d, k) == [d |-> d, k |-> k]
AddsFor(s, d, k) ==
  LET e == IF Flip(s, 41, 30) THEN <<L(d, "Enh")>> ELSE <<>>
      o == Tab(LAMBDA i : L(d, "Opt"), PickQ(s, 42, <<0, 0, 0, 1, 2>>))
      x == IF k = "extread" THEN <<L(d, "Ext")>> ELSE <<>>
      q == CASE R(s, 43, 3) = 0 -> e \o o \o x [] R(s, 43, 3) = 1 -> x \o e \o o [] OTHER -> o \o x \o e
  IN IF k \in XRels \cup {"root"} THEN <<>> ELSE q
RECURSIVE GNode(_, _, _)
GNode(s, d, left) ==
  LET k == IF left = 0 THEN PickQ(s, 1, <<"read", "read", "virt", "extread", "xleaf", "xmulti">>)
           ELSE PickQ(s, 1, <<"read", "filter", "proj", "sort", "fetch", "agg", "cross", "join", "set", "set", "cross", "xsingle", "xmulti", "xmulti", "filter">>)
      n == CASE left = 0 -> 0
             [] TArity(k) = {0} -> 0 [] TArity(k) = {1} -> 1 [] TArity(k) = {2} -> 2
             [] k = "set" -> PickQ(s, 2, <<2, 2, 3, 5>>) [] OTHER -> PickQ(s, 2, <<0, 1, 2, 4>>)
  IN <<L(d, k)>> \o AddsFor(s, d + 1, k) \o Flat(Tab(LAMBDA i : GNode(Sub(s, i), d + 1, IF i > 1 THEN left \div 3 ELSE left - 1), n))
GRoot(s) == IF Flip(s, 1, 50) THEN <<L(0, "root")>> \o GNode(Sub(s, 1), 1, R(s, 2, Depth + 1)) ELSE GNode(Sub(s, 1), 0, R(s, 2, Depth + 1))
Forest(s) == Flat(Tab(LAMBDA i : GRoot(Sub(s, 70 + i)), PickQ(s, 3, <<1, 1, 2, 3>>)))
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Disturb(q, s) ==
  LET n == Len(q)
      i == R(s, 1, n) + 1
      r == R(s, 2, 9)
      t == q[i] IN
  IF n = 0 THEN q ELSE
  CASE r = 0 -> Del(q, i)
    [] r = 1 -> Ins(q, i, t)
    [] r = 2 -> [q EXCEPT ![i].d = t.d + 1]
    [] r = 3 -> [q EXCEPT ![i].d = IF t.d = 0 THEN 0 ELSE R(s, 4, t.d)]
    [] r = 4 -> Ins(q, i + 1, L(t.d + R(s, 5, 2), PickQ(s, 3, <<"Enh", "Opt", "Ext">>)))
    [] r = 5 -> [q EXCEPT ![i].k = PickQ(s, 3, <<"root", "read", "virt", "extread", "filter", "cross", "join", "set", "xleaf", "xsingle", "xmulti", "agg", "bad">>)]
    [] r = 6 -> Ins(q, i, L(PickQ(s, 4, <<0, 1, 2, 3, 4>>), PickQ(s, 3, <<"read", "filter", "virt", "xmulti", "root">>)))
    [] r = 7 -> IF i < n THEN [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]] ELSE q
    [] OTHER -> q
Run(q) == FoldLeft(LAMBDA st, l : TStep(st, l[1], l[2]), T0, MapI(LAMBDA i, l : <<l, i>>, q))
Init == seed \in Lo..(Lo + 15)
Next == seed + 16 <= Hi /\ seed' = seed + 16
Check ==
  LET s == Sub(seed, 8)
      a == TLCEval(Forest(s))
      b == IF Flip(s, 11, 65) THEN TLCEval(Disturb(a, Sub(s, 12))) ELSE a
      q == IF Flip(s, 13, 15) THEN TLCEval(Disturb(b, Sub(s, 14))) ELSE b
      st == TLCEval(Run(q))
      cs == TCaseAfter(PickQ(s, 15, <<0, 0, 0, 0, 0, 0, 3, 300>>), st, q)
  IN /\ TreeInv(st) /\ (q = a => cs.ok # <<>>)
     /\ PrintT(ToJson(cs))
=============================================================================
