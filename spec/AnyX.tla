-------------------------------- MODULE AnyX --------------------------------
(***************************************************************************)
(* C13.  The typed envelope.  An extension's message travels as a type URL *)
(* and bytes.  A state is an envelope - one of six URLs and a sequence of  *)
(* wire fields, whole or cut short - that has made some hops through the   *)
(* envelope types a caller can hold it in.  A hop changes neither URL nor  *)
(* bytes; reading the envelope as message M succeeds exactly when the URL  *)
(* is M's own, to the letter, and the bytes are a message of M's shape;    *)
(* then it gives the fields the bytes carry.  A registry that knows only   *)
(* "Stamp" prints an envelope exactly when it can be read as a Stamp.      *)
(*                                                                         *)
(* Stamp and Span have the same shape {1: int64, 2: string}; Instant (the  *)
(* well-known Timestamp) is {1: int64, 2: int32}.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS MaxF, MaxHops
VARIABLES url, fs, cut, hops

Msgs == {"Stamp", "Span", "Instant"}
Urls == Msgs \cup {"StampBare", "StampHost", "none"}
Field == [f : 1..3, wt : {"var", "len"}, v : {0, 5}]
Conversions == {"prost", "pbjson", "ref", "refprost", "refpbjson"}

WtOf == [Stamp |-> <<"var", "len">>, Span |-> <<"var", "len">>, Instant |-> <<"var", "var">>]
Bytes1(x) == IF x.wt = "var" THEN <<x.f * 8, x.v>> ELSE <<(x.f * 8) + 2, x.v>> \o [i \in 1..x.v |-> 104]
RECURSIVE BytesOf(_)
BytesOf(q) == IF q = <<>> THEN <<>> ELSE Bytes1(Head(q)) \o BytesOf(Tail(q))
Wire == LET b == BytesOf(fs) IN IF cut THEN SubSeq(b, 1, Len(b) - 1) ELSE b

Shaped(m) == ~cut /\ \A i \in 1..Len(fs) : fs[i].f = 3 \/ fs[i].wt = WtOf[m][fs[i].f]
Value(n) == LET S == {i \in 1..Len(fs) : fs[i].f = n} IN IF S = {} THEN 0 ELSE fs[CHOOSE i \in S : \A j \in S : j <= i].v
\* the bytes a message is written as: a field holding its default is left out
Canon(m, a, b) == BytesOf((IF a = 0 THEN <<>> ELSE <<[f |-> 1, wt |-> WtOf[m][1], v |-> a]>>) \o (IF b = 0 THEN <<>> ELSE <<[f |-> 2, wt |-> WtOf[m][2], v |-> b]>>))
ReadAs(m) == CASE url # m -> [r |-> "url"] [] ~Shaped(m) -> [r |-> "bytes"] [] OTHER -> [r |-> "ok", a |-> Value(1), b |-> Value(2), enc |-> Canon(m, Value(1), Value(2))]

TypeOK == /\ \A m \in Msgs : ReadAs(m).r = "ok" => url = m
          /\ \A m, k \in Msgs : m # k => ~(ReadAs(m).r = "ok" /\ ReadAs(k).r = "ok")

Init == /\ url \in Urls /\ fs = <<>> /\ cut = FALSE /\ hops = <<>>
More == /\ Len(fs) < MaxF /\ ~cut /\ hops = <<>> /\ \E x \in Field : fs' = Append(fs, x) /\ UNCHANGED <<url, cut, hops>>
Cut == /\ ~cut /\ fs # <<>> /\ hops = <<>> /\ cut' = TRUE /\ UNCHANGED <<url, fs, hops>>
Hop == /\ Len(hops) < MaxHops /\ (fs = <<>> \/ Len(fs) = 1) /\ \E h \in Conversions : hops' = Append(hops, h) /\ UNCHANGED <<url, fs, cut>>
Next == More \/ Cut \/ Hop
Spec == Init /\ [][Next]_<<url, fs, cut, hops>>
Emit == PrintT(ToJson([c |-> "any", url |-> url, wire |-> Wire, hops |-> hops, reads |-> [m \in Msgs |-> ReadAs(m)]]))
=============================================================================
