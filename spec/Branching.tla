------------------------------ MODULE Branching ------------------------------
(* Branching strategies: which term a variable order picks, and how a value    *)
(* order divides its values.  A decision is judged by the part of the values   *)
(* it keeps.  A strategy is [vo |-> , vars |-> sequence of terms, val |-> ].   *)
EXTENDS Integers, Sequences, FiniteSets

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Sorted(S \ {Least(S)})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
AsUnits(s) == [i \in 1..Len(s) |-> {s[i]}]

\* ---- variables -------------------------------------------------------------
\* S[i]: the values of the i-th term.  Deg[i]: its degree.  W[i]: its weight.

FirstOf(I) == {Least(I)}
\* those no other one beats
BestBy(I, Better(_, _)) == {i \in I : ~\E j \in I : Better(j, i)}

RECURSIVE Scan(_, _, _, _, _, _)
Scan(todo, S, Deg, W, n, best) ==
    IF n > Len(todo) THEN best
    ELSE LET i == todo[n]
             c == Cardinality(S[i]) * W[best] - Cardinality(S[best]) * W[i]
         IN  Scan(todo, S, Deg, W, n + 1, IF c < 0 \/ (c = 0 /\ Deg[i] > Deg[best]) THEN i ELSE best)

\* the positions a variable order may pick, {} when everything is fixed
Picks(vo, S, Deg, W) ==
    LET open == {i \in DOMAIN S : Cardinality(S[i]) > 1}
        size(i) == Cardinality(S[i])
    IN  IF open = {} THEN {}
        ELSE CASE vo = "in_order" -> FirstOf(open)
               [] vo = "dom" -> FirstOf(BestBy(open, LAMBDA i, j : size(i) < size(j)))
               [] vo = "widest" -> FirstOf(BestBy(open, LAMBDA i, j : size(i) > size(j)))
               [] vo = "dom_then_deg" -> FirstOf(BestBy(open, LAMBDA i, j : size(i) < size(j) \/ (size(i) = size(j) /\ Deg[i] > Deg[j])))
               [] vo = "smallest" -> FirstOf(BestBy(open, LAMBDA i, j : Least(S[i]) < Least(S[j])))
               [] vo = "largest" -> FirstOf(BestBy(open, LAMBDA i, j : Most(S[i]) > Most(S[j])))
               [] vo = "dom_wdeg" -> LET todo == Sorted(open) IN {Scan(todo, S, Deg, W, 2, todo[1])}
               [] OTHER -> open

\* ---- values ----------------------------------------------------------------
\* what the decision after those in parts may keep
Halves(S) == LET s == Sorted(S) IN {s[i] : i \in 1..(Len(s) \div 2)}
Middle(S) == LET s == Sorted(S) IN s[Len(s) \div 2 + 1]

List(val, S) ==
    CASE val = "smallest_in" -> <<{Least(S)}, S \ {Least(S)}>>
      [] val = "smallest_out" -> <<S \ {Least(S)}, {Least(S)}>>
      [] val = "largest_in" -> <<{Most(S)}, S \ {Most(S)}>>
      [] val = "largest_out" -> <<S \ {Most(S)}, {Most(S)}>>
      [] val = "median" -> <<{Middle(S)}, S \ {Middle(S)}>>
      [] val = "smallest_first" -> AsUnits(Sorted(S))
      [] val = "largest_first" -> AsUnits(Rev(Sorted(S)))
      [] val = "threeway" -> IF Cardinality(S) > 2 THEN <<{Least(S)}, S \ {Least(S), Most(S)}, {Most(S)}>> ELSE AsUnits(Sorted(S))
      [] val = "split_smallest_first" -> <<Halves(S), S \ Halves(S)>>
      [] val = "split_largest_first" -> <<S \ Halves(S), Halves(S)>>

Listed == {"threeway", "smallest_in", "smallest_out", "largest_in", "largest_out", "median", "smallest_first", "largest_first",
           "split_smallest_first", "split_largest_first"}

Inner(S) == S \ {Least(S), Most(S)}
Between(lo, hi, S) == {x \in S : lo <= x /\ x <= hi}

Next1(val, S, plain, parts) ==
    LET n == Len(parts)
        rest == S \ UNION {parts[i] : i \in 1..n}
    IN  IF val \in Listed THEN (IF n < Len(List(val, S)) THEN {List(val, S)[n + 1]} ELSE {})
        ELSE IF val = "random" THEN {{x} : x \in rest}
        ELSE IF n = 1 THEN {rest}
        ELSE IF n > 1 THEN {}
        ELSE IF val = "split_random" THEN {Halves(S), S \ Halves(S)}
        ELSE IF val = "random_out" \/ ~plain \/ Cardinality(S) < 3 THEN {S \ {x} : x \in S}
        ELSE {S \ Between(lo, hi, S) : lo, hi \in Inner(S)} \ {S}
=============================================================================
