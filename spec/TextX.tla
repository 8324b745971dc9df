-------------------------------- MODULE TextX --------------------------------
(***************************************************************************)
(* C06, C08, C03.  The free text a plan carries into its header: URNs,     *)
(* declared names, producer and git hash.  A state is a string built one   *)
(* symbol at a time and the field it fills.  The header writes it as it    *)
(* is; a string that the lines of the header cannot hold is reported.      *)
(***************************************************************************)
EXTENDS Doc
CONSTANTS Fields, Alpha, MaxLen
VARIABLES fld, str
Ch == <<"a", "Z", "_", "7", " ", "\t", "\n", "\r", ":", "u!", "!", [u |-> 160], [u |-> 233], "#", "@", "-", [u |-> 8232], ".", "=", "\"">>
Letter == {1, 2}
Alnum  == {1, 2, 4}
IdCh   == Alnum \cup {3}
Colon  == 9
Ub     == 10
White  == {5, 6, 7, 8, 12, 17}     \* white space in the sense of Unicode
All(q, S) == \A i \in 1..Len(q) : q[i] \in S
Ident(q)  == q # <<>> /\ q[1] \in Letter /\ All(Tail(q), IdCh)
\* one argument of a signature: a letter and more letters or digits, u! before it
Arg(q) == q # <<>> /\ LET b == IF q[1] = Ub THEN Tail(q) ELSE q IN b # <<>> /\ b[1] \in Letter /\ All(Tail(b), Alnum)
RECURSIVE Sig(_)
Sig(q) == IF \E i \in 1..Len(q) : q[i] = 3
          THEN LET i == CHOOSE i \in 1..Len(q) : q[i] = 3 /\ \A j \in 1..(i - 1) : q[j] # 3 IN Arg(SubSeq(q, 1, i - 1)) /\ Sig(SubSeq(q, i + 1, Len(q)))
          ELSE Arg(q)
FName(q) == IF \E i \in 1..Len(q) : q[i] = Colon
            THEN LET i == CHOOSE i \in 1..Len(q) : q[i] = Colon /\ \A j \in 1..(i - 1) : q[j] # Colon
                     s == SubSeq(q, i + 1, Len(q)) IN Ident(SubSeq(q, 1, i - 1)) /\ (s = <<>> \/ Sig(s))
            ELSE Ident(q)
Urn(q)   == q # <<>> /\ All(q, (1..Len(Ch)) \ {5, 7}) /\ q[Len(q)] \notin White
Value(q) == q = <<>> \/ (All(q, (1..Len(Ch)) \ {7}) /\ q[1] \notin White /\ q[Len(q)] \notin White)
\* the name of a type is kept without its u!
Stored(f, q) == IF f = "t" /\ q # <<>> /\ q[1] = Ub THEN Tail(q) ELSE q
Refused(f, q) == f \in {"f", "v"} /\ q # <<>> /\ q[1] = Ub       \* not even written
Fits(f, q) == CASE f = "urn" -> Urn(q) [] f = "f" -> FName(q) [] f \in {"t", "v"} -> Ident(Stored(f, q)) [] OTHER -> Value(q)

Init == fld \in Fields /\ str = <<>>
Next == Len(str) < MaxLen /\ \E c \in Alpha : str' = Append(str, c) /\ fld' = fld
Tx(q) == Map(LAMBDA c : Ch[c], q)
Ur(t) == [urns |-> <<[ua |-> 1, ut |-> t]>>, exts |-> <<>>]
Ex(kd, t) == [urns |-> <<[ua |-> 1, ut |-> "/u"]>>, exts |-> <<[kd |-> kd, a |-> 3, u |-> 1, nm |-> t, hs |-> FALSE, sg |-> ""]>>]
Vr(p, g) == <<[maj |-> 0, min |-> 1, pat |-> 0, prod |-> p, git |-> g]>>
NoTbl == [urns |-> <<>>, exts |-> <<>>]
Plan(t) == [ver |-> CASE fld = "prod" -> Vr(t, "g") [] fld = "git" -> Vr("p", t) [] OTHER -> <<>>,
            tbl |-> CASE fld = "urn" -> Ur(t) [] fld \in {"f", "t", "v"} -> Ex(fld, t) [] OTHER -> NoTbl,
            roots |-> <<>>]
Row(t) == <<"  #  3 @  1: ", t, "\n">>
UrnPart == <<"=== Extensions\nURNs:\n  @  1: ", IF fld = "urn" THEN Tx(str) ELSE "/u", "\n">>
VerPart(t) == <<"=== Version 0.1.0\n", IF str = <<>> /\ fld = "prod" THEN "" ELSE <<"  producer: ", IF fld = "prod" THEN t ELSE "p", "\n">>,
                IF str = <<>> /\ fld = "git" THEN "" ELSE <<"  git_hash: ", IF fld = "git" THEN t ELSE "g", "\n">> >>
Text == <<CASE fld \in {"prod", "git"} -> VerPart(IF Fits(fld, str) THEN Tx(str) ELSE [bad |-> "version"])
            [] fld = "urn" -> <<UrnPart, "\n">>
            [] OTHER -> <<UrnPart, IF Refused(fld, str) THEN "" ELSE <<SubOf[fld], "\n", Row(Tx(Stored(fld, str)))>>, "\n">>,
          IF ~Fits(fld, str) /\ fld \notin {"prod", "git"} THEN [warn |-> 1] ELSE "",
          "=== Plan\n\n">>
\* -- reading: what a header line with this text denotes
RECURSIVE TrimL(_, _), TrimR(_, _)
TrimL(q, S) == IF q # <<>> /\ q[1] \in S THEN TrimL(Tail(q), S) ELSE q
TrimR(q, S) == IF q # <<>> /\ q[Len(q)] \in S THEN TrimR(Front(q), S) ELSE q
Read == TrimR(TrimL(str, IF fld \in {"prod", "git"} THEN White ELSE {5}), White)
OneUb(q) == IF q # <<>> /\ q[1] = Ub THEN Tail(q) ELSE q
Reads == IF fld = "t" THEN Ident(OneUb(Read)) ELSE ~Refused(fld, Read) /\ Fits(fld, Read)
M == IF Reads THEN "" ELSE [mark |-> 1]
RawText == <<CASE fld = "prod" -> <<"=== Version 0.1.0\n  producer: ", Tx(str), "\n  git_hash: g\n">>
               [] fld = "git"  -> <<"=== Version 0.1.0\n  producer: p\n  git_hash: ", Tx(str), "\n">>
               [] fld = "urn"  -> <<"=== Extensions\nURNs:\n", M, "  @  1: ", Tx(str), "\n">>
               [] OTHER        -> <<"=== Extensions\nURNs:\n  @  1: /u\n", SubOf[fld], "\n", M, Row(Tx(str))>>,
             "=== Plan\n">>
ReadBack == \* what is written as it is reads as what was written
  (Fits(fld, str) /\ fld # "t") => (Reads /\ Read = str)
CheckRead == 7 \notin Range(str) =>
  PrintT(ToJson([c |-> "doc", text |-> RawText, ok |-> IF Reads THEN <<Plan(Tx(IF fld = "t" THEN OneUb(Read) ELSE Read))>> ELSE <<>>]))
Check == PrintT(ToJson([c |-> "fmt", ast |-> Plan(Tx(str)), opts |-> DefaultOpts, text |-> Text,
                        back |-> IF Fits(fld, str) THEN <<Plan(Tx(Stored(fld, str)))>> ELSE <<>>]))
=============================================================================
