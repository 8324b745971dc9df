---- MODULE WideX_TTrace_1795037531 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, WideX

_expression ==
    LET WideX_TEExpression == INSTANCE WideX_TEExpression
    IN WideX_TEExpression!expression
----

_trace ==
    LET WideX_TETrace == INSTANCE WideX_TETrace
    IN WideX_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        kind = ("proj")
        /\
        n = (2)
    )
----

_init ==
    /\ kind = _TETrace[1].kind
    /\ n = _TETrace[1].n
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ kind  = _TETrace[i].kind
        /\ kind' = _TETrace[j].kind
        /\ n  = _TETrace[i].n
        /\ n' = _TETrace[j].n

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("WideX_TTrace_1795037531.json", _TETrace)

=============================================================================

 Note that you can extract this module `WideX_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `WideX_TEExpression.tla` file takes precedence 
  over the module `WideX_TEExpression` below).

---- MODULE WideX_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, WideX

expression == 
    [
        \* To hide variables of the `WideX` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        kind |-> kind
        ,n |-> n
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_kindUnchanged |-> kind = kind'
        
        \* Format the `kind` variable as Json value.
        \* ,_kindJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(kind)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_kindModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].kind # _TETrace[s-1].kind
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE WideX_TETrace ----
\*EXTENDS IOUtils, TLC, WideX
\*
\*trace == IODeserialize("WideX_TTrace_1795037531.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE WideX_TETrace ----
EXTENDS TLC, WideX

trace == 
    <<
    ([kind |-> "proj",n |-> -1]),
    ([kind |-> "proj",n |-> 2])
    >>
----


=============================================================================

---- CONFIG WideX_TTrace_1795037531 ----
CONSTANTS
    Lens = { 0 , 1 , 2 , 3 , 4 , 5 , 6 , 7 , 8 , 9 , 10 , 11 , 12 , 13 , 14 , 15 , 16 , 17 , 18 , 24 , 31 , 32 , 33 , 40 , 63 , 64 , 65 , 100 , 130 }

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Wed Nov 18 21:32:13 UTC 2026