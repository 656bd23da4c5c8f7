------------------------------ MODULE SearchModel ------------------------------
(* Every search over two small variables: any set of solutions, any sound        *)
(* propagation, any branching, satisfaction or optimisation, with or without     *)
(* restarts.                                                                      *)
EXTENDS Search, TLC
CONSTANTS D1, D2, Scales, MaxPass, Ops

Space == {<<x, y>> : x \in D1, y \in D2}
Terms == {<<1, 1, 0>>, <<2, 1, 0>>}
Objectives == {[on |-> FALSE, t |-> <<0, 1, 0>>, sign |-> 1]} \cup {[on |-> TRUE, t |-> <<1, 1, 0>>, sign |-> 1], [on |-> TRUE, t |-> <<2, 1, 0>>, sign |-> -1]}

Init ==
    /\ \E S \in SUBSET Space, o \in Objectives, sc \in Scales :
          task = [doms |-> <<D1, D2>>, sols |-> S, obj |-> o, scale |-> sc]
    /\ phase = "enter" /\ stack = <<>> /\ found = <<>> /\ best = NoBest
    /\ pass = 1 /\ spent = 0 /\ nogoods = <<>> /\ count = FreshCount

Guesses(t) ==
    LET S == TermDom(t, Top.doms)
    IN  {[t |-> t, op |-> op, k |-> x, k2 |-> 0] : op \in Ops, x \in S}

Useful(g) ==
    LET S == TermDom(g.t, Top.doms)
        P == {x \in S : Passes(g, x)}
    IN  /\ P # {} /\ P # S
        /\ \A i \in 1..Len(Top.tried) : Top.tried[i].t = g.t /\ \A x \in P : ~Passes(Top.tried[i], x)

Next ==
    \/ \E a \in SUBSET D1, b \in SUBSET D2 : Enter(<<a, b>>)
    \/ Dead
    \/ Cut
    \/ phase = "branch" /\ ~Fixed(Top.doms) /\ \E t \in Terms : Cardinality(TermDom(t, Top.doms)) > 1 /\ \E g \in Guesses(t) : Useful(g) /\ Guess(g)
    \/ Leaf
    \/ Close
    \/ Unwind
    \/ Restart

Spec == Init /\ [][Next]_svars

Bound == pass <= MaxPass
\* the counters agree with what happened, whenever nothing is half done
CountersAgree ==
    /\ count.solutions = Len(found)
    /\ count.restarts = pass - 1
    /\ phase = "complete" => count.recursions >= count.solutions + count.dead
    /\ phase = "complete" /\ task.scale = 0 /\ ~task.obj.on => count.failures <= count.recursions - 1
=============================================================================
