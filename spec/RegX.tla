-------------------------------- MODULE RegX --------------------------------
(***************************************************************************)
(* C13.  Histories of registrations.  A handler is a name and a type; four *)
(* namespaces.  A call is refused when the name is taken in the namespace, *)
(* or the type is; a refused call changes nothing.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxU, MaxLen
VARIABLES bind, hist
NS == 0..3
Init == bind = <<>> /\ hist = <<>>
Taken(ns, n)  == \E i \in 1..Len(bind) : bind[i].ns = ns /\ bind[i].n = n
Holder(ns, u) == {bind[i].n : i \in {j \in 1..Len(bind) : bind[j].ns = ns /\ bind[j].u = u}}
Do(ns, n, u) ==
  LET b == [ns |-> ns, n |-> n, u |-> u] IN
  IF Taken(ns, n) THEN bind' = bind /\ hist' = Append(hist, [ns |-> ns, n |-> n, u |-> u, res |-> "dup", old |-> n])
  ELSE IF Holder(ns, u) # {} THEN bind' = bind /\ hist' = Append(hist, [ns |-> ns, n |-> n, u |-> u, res |-> "conf", old |-> CHOOSE x \in Holder(ns, u) : TRUE])
  ELSE bind' = Append(bind, b) /\ hist' = Append(hist, [ns |-> ns, n |-> n, u |-> u, res |-> "ok", old |-> n])
Next == Len(hist) < MaxLen /\ \E ns \in NS, n \in 0..(MaxN - 1), u \in 0..(MaxU - 1) : Do(ns, n, u)
\* a namespace is a bijection between names and types, made of the calls that succeeded
Bijection == \A i, j \in 1..Len(bind) : (i # j /\ bind[i].ns = bind[j].ns) => (bind[i].n # bind[j].n /\ bind[i].u # bind[j].u)
Succeeded == bind = LET S == SelectSeq(hist, LAMBDA h : h.res = "ok") IN [i \in 1..Len(S) |-> [ns |-> S[i].ns, n |-> S[i].n, u |-> S[i].u]]
Emit == PrintT(ToJson([c |-> "reg", ops |-> hist, bind |-> bind]))
Check == Bijection /\ Succeeded /\ Emit
=============================================================================
