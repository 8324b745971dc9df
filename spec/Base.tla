-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Vocabulary shared by every module of the substrait-explain              *)
(* specification: a pure pseudo-random function (so that a model with one  *)
(* `seed' variable enumerates a reproducible family of documents), ropes   *)
(* (the text a document denotes, as a nested tuple of fragments) and the   *)
(* escaping of names and strings.                                          *)
(*                                                                         *)
(* Rope fragments:  "abc"  literal text        7  decimal number           *)
(*   [u |-> cp]  one character    [bad |-> "Tok"]  an error token !{Tok},  *)
(*   which is also one reported error    [warn |-> n]  n further errors    *)
(*   [mark |-> 1]  this line is the one an error must name                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
\* stands for 4294967295 in what is replayed (TLC has no integer that large)
U32 == 2147480000

----------------------------------------------------------------------------
(* Pseudo-randomness: Hash stays below 2^31 for all arguments.             *)
Hash(s, k) ==
  LET k1 == TLCEval(k % 997)
      s0 == TLCEval(s)
      x == TLCEval(((s0 % 32749) * 60013) + (((s0 \div 32749) % 32749) * 331) + (k1 * 7919) + 12345)
      a == TLCEval(x % 46337)
      y == TLCEval((((a * a) % 46327) + ((x \div 46337) * 7) + (k1 * 131) + 977) % 46337)
      z == (((y * y) % 46327) + (31 * a) + k1) % 46307
  IN  TLCEval((z * 46300) + y)
R(s, k, n)     == (Hash(s, k) \div 5) % n            \* a number in 0..n-1
Sub(s, k)      == Hash(s, k + 450)                   \* an independent seed
Flip(s, k, pc) == R(s, k, 100) < pc
PickQ(s, k, q) == q[R(s, k, Len(q)) + 1]

----------------------------------------------------------------------------
(* Sequences.  TLCEval forces TLC's lazy function values exactly once.     *)
Map(F(_), q)  == TLCEval([i \in 1..Len(q) |-> F(q[i])])
MapI(F(_,_), q) == TLCEval([i \in 1..Len(q) |-> F(i, q[i])])
Tab(F(_), n)  == TLCEval([i \in 1..n |-> F(i)])
Seq1(n)       == [i \in 1..n |-> i]
RefsUpTo(n)   == [i \in 1..n |-> i - 1]
Join(q, sep)  == [i \in 1..(2 * Len(q) - 1) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE sep]
Last(q)       == q[Len(q)]
Front(q)      == SubSeq(q, 1, Len(q) - 1)
Range(q)      == {q[i] : i \in DOMAIN q}
Min2(a, b)    == IF a < b THEN a ELSE b
Max2(a, b)    == IF a > b THEN a ELSE b
Abs(a)        == IF a < 0 THEN -a ELSE a
RECURSIVE FlatFrom(_, _)
FlatFrom(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlatFrom(q, i + 1)
Flat(q)       == FlatFrom(q, 1)
RECURSIVE SumFrom(_, _)
SumFrom(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumFrom(q, i + 1)
Sum(q)        == SumFrom(q, 1)
AllQ(P(_), q) == \A i \in 1..Len(q) : P(q[i])
IndexOf(q, x) == IF \E i \in 1..Len(q) : q[i] = x
                 THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
                 ELSE 0
RECURSIVE DedupFrom(_, _, _)
DedupFrom(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE DedupFrom(q, i + 1, IF q[i] \in Range(acc) THEN acc ELSE Append(acc, q[i]))
Dedup(q) == DedupFrom(q, 1, <<>>)
FilterQ(P(_), q) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(q) THEN <<>> ELSE (IF P(q[i]) THEN <<q[i]>> ELSE <<>>) \o go(i + 1)
  IN go(1)
ReplaceAt(q, i, x) == [q EXCEPT ![i] = x]

----------------------------------------------------------------------------
(* Characters.                                                             *)
HexD(n)  == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[n + 1]
RECURSIVE Hex(_)
Hex(n)   == IF n < 16 THEN HexD(n) ELSE Hex(n \div 16) \o HexD(n % 16)
Hex2(n)  == HexD(n \div 16) \o HexD(n % 16)

\* characters of the model alphabet that have no printable form of their own
NotPrintable(c) == c < 32 \/ (c >= 127 /\ c <= 160)
                   \/ c \in {173, 8203, 8232, 8233, 65279, 57344, 1114111}
\* combining characters: escaped only in first position
Combining(c)    == c \in {769, 768, 65039}

\* `esc' = 0 is what the formatter writes; other values are spellings only the
\* parser sees.  q is the enclosing quote character.
EscChar(c, first, esc, q) ==
  IF esc = 2 /\ ~(c \in {10, 13}) THEN <<"\\u{", Hex(c), "}">>
  ELSE CASE c = 10 -> "\\n"
    [] c = 13 -> "\\r"
    [] c = 92 -> "\\\\"
    [] c = q  -> <<"\\", [u |-> c]>>
    [] esc = 0 /\ c = 9 -> "\\t"
    [] esc = 0 /\ c = 0 -> "\\0"
    [] esc = 0 /\ c \in {34, 39} -> <<"\\", [u |-> c]>>
    [] esc = 0 /\ (NotPrintable(c) \/ (first /\ Combining(c))) -> <<"\\u{", Hex(c), "}">>
    [] esc = 3 /\ c >= 97 /\ c <= 122 /\ c \notin {110, 114, 116, 117} -> <<"\\", [u |-> c]>>
    [] OTHER -> [u |-> c]
Escaped(cs, esc, q) == Tab(LAMBDA i : EscChar(cs[i], i = 1, esc, q), Len(cs))

Sp(n) == CASE n = 0 -> "" [] n = 1 -> " " [] n = 2 -> "  " [] OTHER -> "   "

----------------------------------------------------------------------------
(* Spelling styles.  Canon is the spelling the formatter uses.             *)
Canon == [bc |-> 0, ac |-> 1, tc |-> 1, ba |-> 1, aa |-> 1, ip |-> 0, cl |-> 0, eq |-> 0,
          an |-> 0, qn |-> 0, up |-> 0, ub |-> 0, su |-> 0, es |-> 0, ds |-> 0, tz |-> 0,
          ca |-> 0, tr |-> 0, ml |-> 0]
GenStyle(s) ==
  IF R(s, 1, 4) = 0 THEN Canon
  ELSE [bc |-> R(s, 2, 3), ac |-> R(s, 3, 3), tc |-> R(s, 4, 3), ba |-> R(s, 5, 3),
        aa |-> R(s, 6, 3), ip |-> R(s, 7, 3), cl |-> R(s, 8, 3), eq |-> R(s, 9, 3),
        an |-> R(s, 10, 3), qn |-> R(s, 11, 2), up |-> R(s, 12, 2), ub |-> R(s, 13, 2),
        su |-> R(s, 14, 2), es |-> R(s, 15, 4), ds |-> R(s, 16, 2), tz |-> R(s, 17, 2),
        ca |-> R(s, 18, 3), tr |-> R(s, 19, 2), ml |-> R(s, 20, 2)]

(* Names: [id |-> "abc"] for identifiers, [cs |-> <<...>>] for all others. *)
ShowName(n, y) ==
  IF "id" \in DOMAIN n
  THEN (IF y.qn = 1 THEN <<"\"", n.id, "\"">> ELSE n.id)
  ELSE <<"\"", Escaped(n.cs, y.es, 34), "\"">>

Commas(q, y)  == Join(q, <<Sp(y.bc), ",", Sp(y.ac)>>)      \* space may precede the comma
CommasA(q, y) == Join(q, <<",", Sp(y.ac)>>)                \* and here it may not
Arrow(a, y)   == <<Sp(y.ba), a, Sp(y.aa)>>
=============================================================================
