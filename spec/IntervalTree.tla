---------------------------- MODULE IntervalTree ---------------------------
(* An index of closed intervals: a set that only grows, queried for the      *)
(* members that contain, or lie inside, a given interval.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE stored

ITInit == stored = {}

Insert(lo, hi) == stored' = stored \cup {<<lo, hi>>}

Containing(lo, hi) == {i \in stored : i[1] <= lo /\ hi <= i[2]}
ContainedIn(lo, hi) == {i \in stored : lo <= i[1] /\ i[2] <= hi}

Before(i, j) == i[1] < j[1] \/ (i[1] = j[1] /\ i[2] < j[2])

\* Each wanted interval once, in increasing order.
Lists(seq, S) ==
    /\ Len(seq) = Cardinality(S)
    /\ {seq[k] : k \in 1..Len(seq)} = S
    /\ \A k \in 1..(Len(seq) - 1) : Before(seq[k], seq[k + 1])
=============================================================================
