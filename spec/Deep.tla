-------------------------------- MODULE Deep --------------------------------
(***************************************************************************)
(* C09, C16.  Nesting has no limit: a document that nests one construct n  *)
(* times is as well-formed as one that nests it once, and reads, prints    *)
(* and converts like it.  The machine deepens one construct by a factor at *)
(* a time; the real binary (with its ordinary stack) is given the result.  *)
(* Beyond Limit a behaviour belongs to the recorded finding.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depths, Limit, Forms
VARIABLES sh, n
Hdr == "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: add\n\n"
Shapes == {[nm |-> "tree", pre |-> "=== Plan\n", op |-> "Filter[$0 => $0]\n", md |-> "Read[t => a:i64]\n", cl |-> "", po |-> "", ind |-> TRUE],
           [nm |-> "call", pre |-> Hdr \o "=== Plan\nProject[", op |-> "add(", md |-> "$0", cl |-> "):i64", po |-> "]\n  Read[t => a:i64]\n", ind |-> FALSE],
           [nm |-> "cast", pre |-> "=== Plan\nProject[", op |-> "(", md |-> "$0", cl |-> ")::i64", po |-> "]\n  Read[t => a:i64]\n", ind |-> FALSE],
           [nm |-> "if", pre |-> "=== Plan\nProject[", op |-> "if_then($0 -> $0, _ -> ", md |-> "$0", cl |-> ")", po |-> "]\n  Read[t => a:i64]\n", ind |-> FALSE],
           [nm |-> "type", pre |-> "=== Plan\nRead[t => a:", op |-> "list<", md |-> "i64", cl |-> ">", po |-> "]\n", ind |-> FALSE]}
Init == sh \in Shapes /\ n = 1
Next == \E d \in Depths : d > n /\ n' = d /\ sh' = sh
Case(f) == LET c == [c |-> "deep", sh |-> sh, n |-> n, form |-> f] IN PrintT(ToJson(IF n > Limit THEN c @@ [kf |-> "deep-" \o f] ELSE c))
Check == \A f \in Forms : Case(f)
=============================================================================
