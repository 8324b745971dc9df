-------------------------------- MODULE ChunkX --------------------------------
(***************************************************************************)
(* C04, C14.  A virtual read may be broken over lines: what follows it one  *)
(* level deeper and begins with "- " belongs to it, and nothing else does.  *)
(* A behaviour is a sequence of lines; a line holds a run of the pieces of  *)
(* one virtual read (from..to), or is a whole relation, an addendum or      *)
(* blank.  The lines are first gathered into chunks, the chunks then build  *)
(* the tree (Tree.tla).                                                     *)
(***************************************************************************)
EXTENDS Tree
CONSTANTS Set, MaxLen, MaxD, Crlf
VARIABLE lines
Nl == IF Crlf THEN "\r\n" ELSE "\n"

S(to) == [k |-> "start", fr |-> 1, to |-> to]
C(fr, to) == [k |-> "cont", fr |-> fr, to |-> to]
Plain(k) == [k |-> k, fr |-> 0, to |-> 0]
KS == CASE Set = "all" -> {S(t) : t \in 1..5} \cup {C(f, t) : f \in 2..5, t \in 2..5} \cup {Plain(k) : k \in {"read", "filter", "blank", "spaces", "Enh"}}
        [] Set = "some" -> {S(1), S(3), S(5), C(2, 5), C(4, 5), C(2, 3), C(5, 5), Plain("tight"), Plain("read"), Plain("filter"), Plain("blank"), Plain("Enh")}
        [] OTHER -> {S(1), C(2, 4), C(5, 5), C(2, 5), Plain("filter"), Plain("blank")}
Kinds_ == {x \in KS : x.fr <= x.to}
Init == lines = <<>>
Next == Len(lines) < MaxLen /\ \E d \in 0..MaxD, x \in Kinds_ : (x.k = "blank" => d = 0) /\ lines' = Append(lines, [d |-> d, x |-> x])

\* -- chunks ---------------------------------------------------------------------
Blank(i) == lines[i].x.k \in {"blank", "spaces"}
\* line i goes with the chunk that began at line b
Goes(b, i) == ~Blank(b) /\ lines[i].x.k = "cont" /\ lines[i].d = lines[b].d + 1
RECURSIVE End(_, _)
End(b, i) == IF i <= Len(lines) /\ Goes(b, i) THEN End(b, i + 1) ELSE i - 1
RECURSIVE Chunks(_)
Chunks(i) == IF i > Len(lines) THEN <<>> ELSE LET e == End(i, i + 1) IN <<[b |-> i, e |-> e]>> \o Chunks(e + 1)
\* the pieces come each once and in order
Whole(c) == /\ lines[c.b].x.k = "start"
            /\ \A i \in (c.b + 1)..c.e : lines[i].x.fr = lines[i - 1].x.to + 1
            /\ lines[c.e].x.to = 5
\* rows left out or repeated make another read of it; those lines are not judged
RECURSIVE Run(_, _)
Run(c, i) == IF i > c.e THEN <<>> ELSE [j \in 1..(lines[i].x.to - lines[i].x.fr + 1) |-> lines[i].x.fr + j - 1] \o Run(c, i + 1)
Other(c) == /\ lines[c.b].x.k = "start" /\ ~Whole(c)
            /\ LET r == Run(c, c.b) m == Len(r) IN
               m >= 3 /\ r[1] = 1 /\ r[m] = 5 /\ r[m - 1] = 4 /\ \A i \in 2..(m - 2) : r[i] \in {2, 3}
KindOf(c) == LET k == lines[c.b].x.k IN
             CASE k = "start" -> IF Whole(c) THEN "virt" ELSE "bad"
               [] k \in {"cont", "tight"} -> "bad"
               [] k \in {"read", "filter", "Enh"} -> IF c.e = c.b THEN k ELSE "bad"
RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN s
              ELSE Fold(IF Blank(Head(q).b) THEN s ELSE TStep(s, [d |-> lines[Head(q).b].d, k |-> KindOf(Head(q))], Head(q).b + 1), Tail(q))
\* -- text -------------------------------------------------------------------------
RECURSIVE Owner(_)
Owner(i) == IF i = 0 THEN 0 ELSE IF lines[i].x.k = "start" THEN i + 1 ELSE Owner(i - 1)
Pieces(n) == <<"Read:Virtual[", <<"(", n, "),">>, <<"(", n, "),">>, "(1)", <<"=> c", n, ":i64]">>>>
LText(i) == LET x == lines[i].x IN
  CASE x.k = "start" -> SubSeq(Pieces(i + 1), 1, x.to)
    [] x.k = "cont" -> <<"- ", SubSeq(Pieces(Owner(i)), x.fr, x.to)>>
    [] x.k = "tight" -> "-(1)"
    [] x.k \in {"blank", "spaces"} -> ""
    [] OTHER -> TText(x.k, i + 1)
Check ==
  (\E i \in 1..Len(Chunks(1)) : Other(Chunks(1)[i])) \/
  LET st == Fold(T0, Chunks(1))
      F == IF st.err # 0 THEN {st.err} ELSE AllFaults(st)
      mk == IF Cardinality(F) = 1 THEN CHOOSE n \in F : TRUE ELSE 0
      text == <<"=== Plan", Nl, MapI(LAMBDA i, l : <<IF i + 1 = mk THEN [mark |-> 1] ELSE "", Rep("  ", l.d), LText(i), Nl>>, lines)>>
  IN PrintT(ToJson(IF F = {} THEN LET p == TPlan(st) IN [c |-> "doc", ok |-> <<p>>, text |-> text, canon |-> Canonical(p, DefaultOpts)]
                   ELSE [c |-> "doc", ok |-> <<>>, text |-> text]))
=============================================================================
