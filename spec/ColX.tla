-------------------------------- MODULE ColX --------------------------------
(***************************************************************************)
(* C13.  What a handler can turn its output columns into, and back: a list *)
(* of columns is a schema exactly when every column is named, and a schema *)
(* is a list of columns exactly when it has one type for each name.  The   *)
(* machine grows a list of columns (Mode "cols") or a schema's two lists   *)
(* (Mode "schema"), one entry at a time.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode, MaxLen
VARIABLES cols, names, types, has
S(n, nu) == [k |-> "s", n |-> n, nu |-> nu]
Ty == {S("i64", "R"), S("string", "N"), S("i64", "U"),
       [k |-> "struct", nu |-> "N", es |-> <<S("i64", "R"), S("string", "N")>>], [k |-> "list", nu |-> "R", e |-> S("fp64", "N")]}
Nm == {[id |-> "a"], [id |-> "b"], [cs |-> <<>>]}
Col == {[n |-> n, t |-> t] : n \in Nm, t \in Ty} \cup {[e |-> [k |-> "ref", i |-> 0]], [e |-> [k |-> "lit", lk |-> "bool", nb |-> FALSE, b |-> TRUE]]}
Init == cols = <<>> /\ names = <<>> /\ types = <<>> /\ has \in (IF Mode = "cols" THEN {TRUE} ELSE {TRUE, FALSE})
Next ==
  \/ /\ Mode = "cols" /\ Len(cols) < MaxLen
     /\ \E c \in Col : cols' = Append(cols, c)
     /\ UNCHANGED <<names, types, has>>
  \/ /\ Mode = "schema" /\ Len(names) < MaxLen
     /\ \E n \in Nm : names' = Append(names, n)
     /\ UNCHANGED <<cols, types, has>>
  \/ /\ Mode = "schema" /\ has /\ Len(types) < MaxLen
     /\ \E t \in Ty : types' = Append(types, t)
     /\ UNCHANGED <<cols, names, has>>

Named(c) == "n" \in DOMAIN c
ToSchema(cs) == IF \A i \in 1..Len(cs) : Named(cs[i])
                THEN <<[names |-> [i \in 1..Len(cs) |-> cs[i].n], types |-> [i \in 1..Len(cs) |-> cs[i].t]]>> ELSE <<>>
ToCols(ns, ts) == IF Len(ns) = Len(ts) THEN <<[i \in 1..Len(ns) |-> [n |-> ns[i], t |-> ts[i]]]>> ELSE <<>>
\* the two directions undo each other
Inverse == /\ LET z == ToSchema(cols) IN z # <<>> => ToCols(z[1].names, z[1].types) = <<cols>>
           /\ LET z == ToCols(names, types) IN z # <<>> => ToSchema(z[1]) = <<[names |-> names, types |-> types]>>
Emit == IF Mode = "cols" THEN PrintT(ToJson([c |-> "conv", cols |-> cols, ok |-> ToSchema(cols)]))
        ELSE PrintT(ToJson([c |-> "conv", names |-> names, types |-> types, has |-> has, ok |-> ToCols(names, types)]))
Check == Inverse /\ Emit
=============================================================================
