------------------------------ MODULE Schedules ------------------------------
(* Resource-constrained project scheduling instances: what a schedule must   *)
(* satisfy, the bounds the precedences alone give, and the serial scheme.    *)
(* Tasks are 0..n-1; d, dem[r] and schedules are sequences over 1..n.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Most(S) == CHOOSE x \in S : \A y \in S : y <= x
SumOf(S, f(_)) ==
    LET RECURSIVE Add(_)
        Add(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + Add(T \ {x})
    IN  Add(S)

Tasks(i) == 1..i.n
Before(i) == {<<i.prec[k][1] + 1, i.prec[k][2] + 1>> : k \in 1..Len(i.prec)}
OnMachine(i) == {i.machine[k] + 1 : k \in 1..Len(i.machine)}

\* Task t runs at time u under schedule s.
Runs(i, s, t, u) == s[t] <= u /\ u < s[t] + i.d[t]
Ends(i, s) == Most({0} \cup {s[t] + i.d[t] : t \in Tasks(i)})

Ordered(i, s) == \A p \in Before(i) : s[p[1]] + i.d[p[1]] <= s[p[2]]
Lagged(i, s) == \A k \in 1..Len(i.lags) : s[i.lags[k][1] + 1] + i.lags[k][3] <= s[i.lags[k][2] + 1]
\* Loads only rise when a task starts, so starting times are all that matter.
Loaded(i, s) ==
    \A v \in Tasks(i) : i.d[v] > 0 =>
        LET now == {t \in Tasks(i) : Runs(i, s, t, s[v])}
        IN  /\ \A r \in 1..Len(i.cap) : SumOf(now, LAMBDA t : i.dem[r][t]) <= i.cap[r]
            /\ Cardinality(now \cap OnMachine(i)) <= 1
Pinned(i, s) == i.source = -1 \/ s[i.source + 1] = 0

Feasible(i, s) ==
    /\ Len(s) = i.n
    /\ \A t \in Tasks(i) : s[t] >= 0
    /\ Ordered(i, s) /\ Lagged(i, s) /\ Pinned(i, s) /\ Loaded(i, s)

-----------------------------------------------------------------------------
\* Every precedence goes from a lower index to a higher one.
Unreachable == -1
\* Heaviest path from a to b, an edge weighing its tail's duration.
RECURSIVE Heaviest(_, _, _, _)
Heaviest(pre, d, a, b) ==
    IF a = b THEN 0
    ELSE IF a > b THEN Unreachable
    ELSE LET ws == {Heaviest(pre, d, p[2], b) : p \in {q \in pre : q[1] = a}} \ {Unreachable}
         IN  IF ws = {} THEN Unreachable ELSE d[a] + Most(ws)
Path(i, a, b) == Heaviest(Before(i), i.d, a, b)

Earliest(i) == [t \in Tasks(i) |-> Most({Path(i, a, t) : a \in Tasks(i)})]
Tails(i) == [t \in Tasks(i) |-> Most({0} \cup {Path(i, t, b) + i.d[b] - i.d[t] : b \in {b \in Tasks(i) : Path(i, t, b) # Unreachable}})]
Critical(i) == Most({0} \cup {Path(i, a, b) + i.d[b] : <<a, b>> \in {q \in Tasks(i) \X Tasks(i) : Path(i, q[1], q[2]) # Unreachable}})
Horizon(i) == SumOf(Tasks(i), LAMBDA t : Most({i.d[t]} \cup {i.lags[k][3] : k \in {k \in 1..Len(i.lags) : i.lags[k][1] + 1 = t}}))
Backward(i) == \E k \in 1..Len(i.lags) : i.lags[k][3] < 0

-----------------------------------------------------------------------------
\* The serial scheme: each task in index order, as early as what is already
\* placed lets it be; lags and the source are not its business.
Fits(i, s, t, u) ==
    LET all == Append(s, u)
    IN  /\ \A p \in Before(i) : p[2] = t => all[p[1]] + i.d[p[1]] <= u
        /\ \A v \in u..(u + i.d[t] - 1) :
              LET now == {q \in 1..t : Runs(i, all, q, v)}
              IN  /\ \A r \in 1..Len(i.cap) : SumOf(now, LAMBDA q : i.dem[r][q]) <= i.cap[r]
                  /\ t \in OnMachine(i) => Cardinality(now \cap OnMachine(i)) <= 1
RECURSIVE Serial(_, _)
Serial(i, s) ==
    IF Len(s) = i.n THEN s
    ELSE LET t == Len(s) + 1
             RECURSIVE First(_)
             First(u) == IF Fits(i, s, t, u) THEN u ELSE First(u + 1)
         IN  Serial(i, Append(s, First(0)))
=============================================================================
