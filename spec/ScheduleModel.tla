---------------------------- MODULE ScheduleModel ----------------------------
(* What the bounds and the serial scheme promise, over every small instance: *)
(* the scheme's schedule is feasible and ends within the sum of durations;   *)
(* no feasible schedule starts a task before its earliest start, leaves less *)
(* than its tail after it, or beats the critical path.                       *)
EXTENDS Schedules

CONSTANTS N, MaxDuration, Capacity

VARIABLE i
Up == {q \in (0..(N - 1)) \X (0..(N - 1)) : q[1] < q[2]}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o AsSeq(S \ {x})

Init == \E d \in [1..N -> 0..MaxDuration], q \in [1..N -> 0..Capacity], p \in SUBSET Up, m \in SUBSET (0..(N - 1)) :
            i = [n |-> N, d |-> d, cap |-> << Capacity >>, dem |-> << q >>, prec |-> AsSeq(p), lags |-> << >>, machine |-> AsSeq(m), source |-> -1]
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

SerialFeasible == LET s == Serial(i, << >>) IN Feasible(i, s) /\ Ends(i, s) <= Horizon(i) /\ Ends(i, s) >= Critical(i)
BoundsHold ==
    LET e == Earliest(i)
        b == Tails(i)
    IN  \A s \in [1..N -> 0..(N * MaxDuration)] :
            Feasible(i, s) => /\ \A t \in 1..N : s[t] >= e[t] /\ s[t] + i.d[t] + b[t] <= Ends(i, s)
                              /\ Ends(i, s) >= Critical(i)
\* The bounds are the best the precedences alone can give.
BoundsTight ==
    LET free == [i EXCEPT !.cap = << >>, !.dem = << >>, !.machine = << >>]
        e == Earliest(i)
    IN  Feasible(free, e) /\ Ends(i, e) = Critical(i)
=============================================================================
