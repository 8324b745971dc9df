---- MODULE PairX_TTrace_1795039728 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, PairX

_expression ==
    LET PairX_TEExpression == INSTANCE PairX_TEExpression
    IN PairX_TEExpression!expression
----

_trace ==
    LET PairX_TETrace == INSTANCE PairX_TETrace
    IN PairX_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        e = (<<[lk |-> "int", nb |-> TRUE, k |-> "lit", w |-> "i64", num |-> "-7", mw |-> 8]>>)
        /\
        ph = (1)
        /\
        slot = ("lim")
    )
----

_init ==
    /\ e = _TETrace[1].e
    /\ slot = _TETrace[1].slot
    /\ ph = _TETrace[1].ph
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ e  = _TETrace[i].e
        /\ e' = _TETrace[j].e
        /\ slot  = _TETrace[i].slot
        /\ slot' = _TETrace[j].slot
        /\ ph  = _TETrace[i].ph
        /\ ph' = _TETrace[j].ph

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("PairX_TTrace_1795039728.json", _TETrace)

=============================================================================

 Note that you can extract this module `PairX_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `PairX_TEExpression.tla` file takes precedence 
  over the module `PairX_TEExpression` below).

---- MODULE PairX_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, PairX

expression == 
    [
        \* To hide variables of the `PairX` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        e |-> e
        ,slot |-> slot
        ,ph |-> ph
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_eUnchanged |-> e = e'
        
        \* Format the `e` variable as Json value.
        \* ,_eJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(e)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_eModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].e # _TETrace[s-1].e
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE PairX_TETrace ----
\*EXTENDS IOUtils, TLC, PairX
\*
\*trace == IODeserialize("PairX_TTrace_1795039728.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE PairX_TETrace ----
EXTENDS TLC, PairX

trace == 
    <<
    ([e |-> <<>>,ph |-> 0,slot |-> "lim"]),
    ([e |-> <<[lk |-> "int", nb |-> TRUE, k |-> "lit", w |-> "i64", num |-> "-7", mw |-> 8]>>,ph |-> 1,slot |-> "lim"])
    >>
----


=============================================================================

---- CONFIG PairX_TTrace_1795039728 ----
CONSTANTS
    What = "e"
    Wide = FALSE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Wed Nov 18 22:08:52 UTC 2026