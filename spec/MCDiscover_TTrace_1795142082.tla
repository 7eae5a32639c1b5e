---- MODULE MCDiscover_TTrace_1795142082 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, MCDiscover

_expression ==
    LET MCDiscover_TEExpression == INSTANCE MCDiscover_TEExpression
    IN MCDiscover_TEExpression!expression
----

_trace ==
    LET MCDiscover_TETrace == INSTANCE MCDiscover_TETrace
    IN MCDiscover_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        call = ([o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0])
        /\
        hist = (<<[t |-> 0, op |-> "send", os |-> 0], [t |-> 39, k |-> "a", op |-> "recv"], [t |-> 39, op |-> "cb", d |-> 70, stop |-> FALSE, v |-> <<<<105>>, <<95, 97>>, 0>>], [t |-> 109, op |-> "rerr"], [t |-> 109, r |-> "err", op |-> "ret"]>>)
        /\
        c = ([srv |-> <<>>, k |-> 1, os |-> 111, start |-> 0, must |-> "err", pend |-> <<>>, ncb |-> 1, last |-> 109, seen |-> {<<<<105>>, <<95, 97>>, 0>>}, txts |-> <<>>, from |-> 39, ips |-> <<>>])
        /\
        pc = ("done")
        /\
        tab = ([pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]])
        /\
        cfg = ([srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0])
        /\
        now = (109)
        /\
        net = (<<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39], [at |-> 109, err |-> 111]>>)
        /\
        script = (<<[net |-> <<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39], [at |-> 109, err |-> 111]>>, o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0, cbd |-> <<70>>]>>)
    )
----

_init ==
    /\ net = _TETrace[1].net
    /\ c = _TETrace[1].c
    /\ call = _TETrace[1].call
    /\ cfg = _TETrace[1].cfg
    /\ tab = _TETrace[1].tab
    /\ now = _TETrace[1].now
    /\ pc = _TETrace[1].pc
    /\ hist = _TETrace[1].hist
    /\ script = _TETrace[1].script
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ net  = _TETrace[i].net
        /\ net' = _TETrace[j].net
        /\ c  = _TETrace[i].c
        /\ c' = _TETrace[j].c
        /\ call  = _TETrace[i].call
        /\ call' = _TETrace[j].call
        /\ cfg  = _TETrace[i].cfg
        /\ cfg' = _TETrace[j].cfg
        /\ tab  = _TETrace[i].tab
        /\ tab' = _TETrace[j].tab
        /\ now  = _TETrace[i].now
        /\ now' = _TETrace[j].now
        /\ pc  = _TETrace[i].pc
        /\ pc' = _TETrace[j].pc
        /\ hist  = _TETrace[i].hist
        /\ hist' = _TETrace[j].hist
        /\ script  = _TETrace[i].script
        /\ script' = _TETrace[j].script

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MCDiscover_TTrace_1795142082.json", _TETrace)

=============================================================================

 Note that you can extract this module `MCDiscover_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MCDiscover_TEExpression.tla` file takes precedence 
  over the module `MCDiscover_TEExpression` below).

---- MODULE MCDiscover_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, MCDiscover

expression == 
    [
        \* To hide variables of the `MCDiscover` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        net |-> net
        ,c |-> c
        ,call |-> call
        ,cfg |-> cfg
        ,tab |-> tab
        ,now |-> now
        ,pc |-> pc
        ,hist |-> hist
        ,script |-> script
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_netUnchanged |-> net = net'
        
        \* Format the `net` variable as Json value.
        \* ,_netJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(net)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_netModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].net # _TETrace[s-1].net
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MCDiscover_TETrace ----
\*EXTENDS IOUtils, TLC, MCDiscover
\*
\*trace == IODeserialize("MCDiscover_TTrace_1795142082.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MCDiscover_TETrace ----
EXTENDS TLC, MCDiscover

trace == 
    <<
    ([call |-> [o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0],hist |-> <<>>,c |-> [srv |-> <<>>, k |-> 0, os |-> 0, start |-> 0, must |-> "run", pend |-> <<>>, ncb |-> 0, last |-> 0, seen |-> {}, txts |-> <<>>, from |-> 0, ips |-> <<>>],pc |-> "send",tab |-> [pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]],cfg |-> [srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0],now |-> 0,net |-> <<>>,script |-> <<>>]),
    ([call |-> [o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0],hist |-> <<[t |-> 0, op |-> "send", os |-> 0]>>,c |-> [srv |-> <<>>, k |-> 1, os |-> 0, start |-> 0, must |-> "run", pend |-> <<>>, ncb |-> 0, last |-> 0, seen |-> {}, txts |-> <<>>, from |-> 0, ips |-> <<>>],pc |-> "recv",tab |-> [pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]],cfg |-> [srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0],now |-> 0,net |-> <<>>,script |-> <<>>]),
    ([call |-> [o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0],hist |-> <<[t |-> 0, op |-> "send", os |-> 0], [t |-> 39, k |-> "a", op |-> "recv"]>>,c |-> [srv |-> <<>>, k |-> 1, os |-> 0, start |-> 0, must |-> "run", pend |-> <<<<<<105>>, <<95, 97>>, 0>>>>, ncb |-> 0, last |-> 39, seen |-> {}, txts |-> <<>>, from |-> 39, ips |-> <<>>],pc |-> "cb",tab |-> [pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]],cfg |-> [srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0],now |-> 39,net |-> <<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39]>>,script |-> <<>>]),
    ([call |-> [o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0],hist |-> <<[t |-> 0, op |-> "send", os |-> 0], [t |-> 39, k |-> "a", op |-> "recv"], [t |-> 39, op |-> "cb", d |-> 70, stop |-> FALSE, v |-> <<<<105>>, <<95, 97>>, 0>>]>>,c |-> [srv |-> <<>>, k |-> 1, os |-> 0, start |-> 0, must |-> "run", pend |-> <<>>, ncb |-> 1, last |-> 109, seen |-> {<<<<105>>, <<95, 97>>, 0>>}, txts |-> <<>>, from |-> 39, ips |-> <<>>],pc |-> "recv",tab |-> [pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]],cfg |-> [srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0],now |-> 109,net |-> <<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39]>>,script |-> <<>>]),
    ([call |-> [o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0],hist |-> <<[t |-> 0, op |-> "send", os |-> 0], [t |-> 39, k |-> "a", op |-> "recv"], [t |-> 39, op |-> "cb", d |-> 70, stop |-> FALSE, v |-> <<<<105>>, <<95, 97>>, 0>>], [t |-> 109, op |-> "rerr"]>>,c |-> [srv |-> <<>>, k |-> 1, os |-> 111, start |-> 0, must |-> "err", pend |-> <<>>, ncb |-> 1, last |-> 109, seen |-> {<<<<105>>, <<95, 97>>, 0>>}, txts |-> <<>>, from |-> 39, ips |-> <<>>],pc |-> "ret",tab |-> [pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]],cfg |-> [srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0],now |-> 109,net |-> <<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39], [at |-> 109, err |-> 111]>>,script |-> <<>>]),
    ([call |-> [o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0],hist |-> <<[t |-> 0, op |-> "send", os |-> 0], [t |-> 39, k |-> "a", op |-> "recv"], [t |-> 39, op |-> "cb", d |-> 70, stop |-> FALSE, v |-> <<<<105>>, <<95, 97>>, 0>>], [t |-> 109, op |-> "rerr"], [t |-> 109, r |-> "err", op |-> "ret"]>>,c |-> [srv |-> <<>>, k |-> 1, os |-> 111, start |-> 0, must |-> "err", pend |-> <<>>, ncb |-> 1, last |-> 109, seen |-> {<<<<105>>, <<95, 97>>, 0>>}, txts |-> <<>>, from |-> 39, ips |-> <<>>],pc |-> "done",tab |-> [pool |-> [a |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, ab |-> <<0, 7, 132, 0, 0, 0, 0, 3, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, alien |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 98, 4, 95, 116, 99, 112, 1, 100, 0>>, query |-> <<0, 7, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, badb |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 1, 5, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 106, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, cuta |-> <<0, 7, 132, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 63>>], recs |-> [a |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, b |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, ab |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"], [i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, alien |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 98>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, query |-> <<>>, badb |-> <<[i |-> <<>>, n |-> <<<<<<106>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>, cuta |-> <<[i |-> <<>>, n |-> <<<<<<105>>, <<95, 97>>, <<95, 116, 99, 112>>, <<100>>>>>>, x |-> <<>>, k |-> "PTR"]>>]],cfg |-> [srv |-> <<<<10, 0, 0, 1, 20, 233>>>>, to |-> 40, dto |-> 100, tol |-> 0],now |-> 109,net |-> <<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39], [at |-> 109, err |-> 111]>>,script |-> <<[net |-> <<[b |-> <<0, 7, 132, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 13, 1, 105, 2, 95, 97, 4, 95, 116, 99, 112, 1, 100, 0>>, at |-> 39], [at |-> 109, err |-> 111]>>, o |-> "inst", s |-> <<95, 97>>, t |-> 0, brk |-> 0, cbd |-> <<70>>]>>])
    >>
----


=============================================================================

---- CONFIG MCDiscover_TTrace_1795142082 ----
CONSTANTS
    MaxPkts = 2
    MaxCalls = 1

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 02:34:44 UTC 2026