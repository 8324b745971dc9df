-------------------------------- MODULE Sess --------------------------------
(***************************************************************************)
(* C15.  Sessions: several calls (reading a text, writing a plan) over one *)
(* registry.  The library keeps nothing between calls, so the outcome of a *)
(* call is what it is on its own, whatever ran before, is running around   *)
(* it or runs inside it.                                                   *)
(*   Mode "nest": calls on one thread; a call may begin while another is   *)
(*     inside a handler of the registry.  All words of calls and returns.  *)
(*   Mode "par": NT threads; a call can pause whenever it is inside a      *)
(*     handler.  All interleavings of NS steps of each thread.             *)
(*   Mode "comp": roots do not influence each other: a plan of several     *)
(*     roots (some damaged) prints as its roots print one by one.          *)
(***************************************************************************)
EXTENDS Degrade, Surf
CONSTANTS Mode, Calls, NT, NS
VARIABLES open,     \* nest: the calls in progress, outermost first.  par: the steps each thread has left
          pool,     \* the calls of this session
          hist      \* nest: calls (n > 0) and returns (0) so far.    par: the threads that moved, in order
View == <<seed, open, hist>>
NOps == 4
\* -- the pool of calls of a session -------------------------------------------
RECURSIVE HasExt(_)
HasExt(r) == r.k \in {"xrel", "extread"} \/ r.enh # <<>> \/ r.opt # <<>> \/ \E i \in 1..Len(r.ins) : HasExt(r.ins[i])
RECURSIVE Lively(_, _)
Lively(s, n) == LET p == TLCEval(GenPlan(Sub(s, n), 1 + (n % 3))) IN IF n > 40 \/ (\E i \in 1..Len(p.roots) : HasExt(p.roots[i].rel)) THEN p ELSE Lively(s, n + 1)
Reading(s, good) ==
  LET p == Lively(s, 1)
      d == TLCEval(Variant(PrintDoc(p, DefaultOpts), Sub(s, 50)))
      e == IF good THEN d ELSE TLCEval(Mutant(d, Sub(s, 51)))
      y == GenStyle(Sub(s, 52))
      v == ValidDoc(e) IN
  [c |-> "doc", ok |-> IF v THEN <<MeanDoc(e)>> ELSE <<>>, text |-> LaidOut(DocLines(e, y), y, GenLayout(Sub(s, 53)))]
Writing(s, good) ==
  LET g == Lively(s, 1)
      p == IF good THEN g ELSE TLCEval(Damage(g, Sub(s, 54)))
      o == IF Flip(s, 55, 50) THEN GenOpts(Sub(s, 56)) ELSE DefaultOpts IN
  [c |-> "fmt", ast |-> p, opts |-> o, text |-> Canonical(p, o), back |-> <<>>]
Pool(s) == <<Reading(Sub(s, 1), TRUE), Reading(Sub(s, 2), FALSE), Writing(Sub(s, 3), TRUE), Writing(Sub(s, 4), FALSE)>>
Program(s, t) == Tab(LAMBDA k : 1 + R(s, 100 * t + k, NOps), NS)
\* -- the session ---------------------------------------------------------------
NCalls == Len(FilterQ(LAMBDA x : x # 0, hist))
InitS == seed \in (IF Mode = "comp" THEN Lo..(Lo + 15) ELSE Lo..Hi) /\ pool = (IF Mode = "comp" THEN <<>> ELSE Pool(seed)) /\ hist = <<>> /\ open = IF Mode = "par" THEN [t \in 1..NT |-> NS] ELSE <<>>
Call(i) == Mode = "nest" /\ NCalls < Calls /\ open' = Append(open, i) /\ hist' = Append(hist, i)
Return  == Mode = "nest" /\ open # <<>> /\ open' = Front(open) /\ hist' = Append(hist, 0)
Step(t) == Mode = "par" /\ open[t] > 0 /\ open' = [open EXCEPT ![t] = @ - 1] /\ hist' = Append(hist, t)
More == Mode = "comp" /\ seed + 16 <= Hi /\ seed' = seed + 16 /\ UNCHANGED <<open, hist, pool>>
NextS == More \/ (((\E i \in 1..NOps : Call(i)) \/ Return \/ (Mode = "par" /\ \E t \in 1..NT : Step(t))) /\ UNCHANGED <<seed, pool>>)
Done == CASE Mode = "nest" -> open = <<>> /\ NCalls = Calls
          [] Mode = "par" -> \A t \in 1..NT : open[t] = 0
          [] OTHER -> FALSE
Session == Done => PrintT(ToJson([c |-> "sess", seed |-> seed, mode |-> Mode, ops |-> pool, hist |-> hist,
                                  prog |-> IF Mode = "par" THEN [t \in 1..NT |-> Program(Sub(seed, 7), t)] ELSE <<>>]))
\* -- composition ---------------------------------------------------------------
Comp ==
  Mode = "comp" =>
  LET s == Sub(seed, 9)
      g == TLCEval(GenPlan(s, 1 + R(s, 1, Depth)))
      n == 2 + R(s, 2, 3)
      m == [g EXCEPT !.roots = Tab(LAMBDA i : GenRoot(Sub(s, 60 + i), R(s, 70 + i, Depth + 1), g.tbl), n)]
      p == IF Flip(s, 3, 50) THEN m ELSE TLCEval(Damage(m, Sub(s, 4)))
      o == IF Flip(s, 5, 50) THEN GenOpts(Sub(s, 6)) ELSE DefaultOpts
      one(i) == [p EXCEPT !.roots = <<p.roots[i]>>]
      perm == [p EXCEPT !.roots = Tab(LAMBDA i : p.roots[n + 1 - i], n)]
      E(x) == [c |-> "fmt", ast |-> x, opts |-> o, text |-> Canonical(x, o), back |-> <<>>]
      P(x) == [c |-> "fmt", ast |-> x, opts |-> o]
  IN PrintT(ToJson([c |-> "comp", seed |-> seed, whole |-> E(p), rev |-> P(perm), parts |-> Tab(LAMBDA i : P(one(i)), n)]))
=============================================================================
