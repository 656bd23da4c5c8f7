--------------------------- MODULE IntervalSets ---------------------------
(* Sets of integers kept as intervals: the registers of a history of        *)
(* operations, each a mathematical set, and what is seen of one. The        *)
(* intervals of a set are its maximal runs, in order: there is one way to   *)
(* write a set, so that a representation with touching, overlapping or      *)
(* empty intervals is not the set.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

VARIABLE sets       \* register -> set of integers

Runs(S) ==
    LET starts == {v \in S : v - 1 \notin S}
        order == SetToSortSeq(starts, <)
        RunEnd(v) == CHOOSE w \in S : /\ w >= v
                                    /\ w + 1 \notin S
                                    /\ \A x \in v..w : x \in S
    IN  [i \in 1..Len(order) |-> <<order[i], RunEnd(order[i])>>]

Covered(runs) == UNION {r[1]..r[2] : r \in ToSet(runs)}

Ordered(S) == SetToSortSeq(S, <)
Missing(S) == IF S = {} THEN {} ELSE {v \in Min(S)..Max(S) : v \notin S}

ISInit == sets = [r \in 1..3 |-> {}]

Become(r, S) == sets' = [sets EXCEPT ![r] = S]

Empty(r) == Become(r, {})
FromTo(r, lo, hi) == Become(r, lo..hi)
Copy(r, q) == Become(r, sets[q])
Move(r, q) == r # q /\ Become(r, sets[q])      \* q is left unspecified: not looked at before it is given a value
Erase(r, v) == Become(r, sets[r] \ {v})
EraseRange(r, lo, hi) == Become(r, sets[r] \ (lo..hi))
EraseLess(r, v) == Become(r, {x \in sets[r] : x >= v})
EraseGreater(r, v) == Become(r, {x \in sets[r] : x <= v})

\* what insert_at_end asks for
AtEnd(r, v) == IF sets[r] = {} THEN TRUE ELSE v >= Max(sets[r])
Insert(r, v) == AtEnd(r, v) /\ Become(r, sets[r] \union {v})
InsertRange(r, lo, hi) == AtEnd(r, lo) /\ lo <= hi /\ Become(r, sets[r] \union (lo..hi))
Intersect(r, q) == Become(r, sets[r] \intersect sets[q])
===========================================================================
