----------------------------- MODULE LevelTrace -----------------------------
(* Validates the domains that propagation of a single constraint over        *)
(* distinct variables left at nodes of a search, against the consistency     *)
(* level the constraint was posted with: under generalised arc consistency   *)
(* every value left is part of a solution within the domains, under bounds   *)
(* consistency every bound is part of one within the bounds, and under value *)
(* consistency the consequences of fixed variables have been drawn.          *)
(* Whatever the level, no solution within the domains' hulls is contradicted *)
(* by a domain being empty.                                                  *)
EXTENDS TraceBase, Semantics

Init == l = 1

Lo(d) == CHOOSE x \in Range(d) : \A y \in Range(d) : x <= y
Hi(d) == CHOOSE x \in Range(d) : \A y \in Range(d) : x >= y
Hull(d) == [k \in 1..(Hi(d) - Lo(d) + 1) |-> Lo(d) + k - 1]

RECURSIVE Size(_, _)
Size(doms, i) == IF i = 0 THEN 1 ELSE Len(doms[i]) * Size(doms, i - 1)

\* Constraints that only have the one level.
Always == {"abs", "alldiffexcept", "allequal", "among", "and", "or", "parity", "atmostone", "compare", "equals",
           "in", "increasing", "inverse", "knapsack", "mdd", "minmax", "regex", "regular", "table"}
Arithmetic == {"divide", "modulus", "multiply", "plus", "minus", "power"}

\* What is promised: "gac", "bc", "vc" or nothing.  Arithmetic levels are 0
\* and 3 automatic, 1 bounds, 2 tabulated; automatic is tabulated where the
\* domains are small, but a division or modulus counts variables of its own
\* towards that as well, so nothing is promised of those, and a smart table's
\* rows are pruned one tree at a time, so nothing of that either.  Elements
\* are 0 bounds, 1 arc, 2 the default, which is arc consistency for arrays of
\* variables and bounds for arrays of constants.
Promise(c, variant, doms) ==
    CASE c.k \in Always -> "gac"
      [] c.k = "alldiff" -> variant
      [] c.k \in {"element", "element2d"} -> IF variant = "0" THEN "bc" ELSE "gac"
      [] c.k \in {"elementconst", "element2dconst"} -> IF variant = "1" THEN "gac" ELSE "bc"
      [] c.k \in Arithmetic ->
            IF variant = "2" \/ (variant \in {"0", "3"} /\ c.k \notin {"divide", "modulus"} /\ Size(doms, Len(doms)) <= 100) THEN "gac"
            ELSE IF c.k \in {"plus", "minus"} THEN "bc" ELSE "none"
      [] c.k = "lineq" -> IF Len(variant) > 0 /\ SubSeq(variant, 1, 1) = "1" THEN "gac" ELSE "none"
      [] c.k = "lex" /\ c.r.m \in {"must", "mustnot"} -> "gac"
      [] c.k \in {"linle", "sort"} -> "bc"
      [] OTHER -> "none"

ArcConsistent(n, S, N) ==
    \E alive \in {{a \in S : \A v \in 1..N : a[v] \in Range(n[v])}} :
        \A v \in 1..N : Check("values without support", Range(n[v]) \ {a[v] : a \in alive}, {})

BoundsConsistent(n, Z, N) ==
    \E alive \in {{a \in Z : \A v \in 1..N : a[v] >= Lo(n[v]) /\ a[v] <= Hi(n[v])}} :
        \A v \in 1..N : Check("bounds without support", {Lo(n[v]), Hi(n[v])} \ {a[v] : a \in alive}, {})

\* A fixed value has left the other variables.
ValueConsistent(n, c) ==
    LET D(t) == IF t[1] = 0 THEN {t[3]} ELSE {t[2] * x + t[3] : x \in Range(n[t[1]])}
    IN  \A i, j \in 1..Len(c.xs) : i # j /\ Cardinality(D(c.xs[i])) = 1 =>
            Check("values taken elsewhere", D(c.xs[j]) \cap D(c.xs[i]), {})

\* Nothing that is left out of the domains was a solution a guess could still
\* reach: what the root lost was never part of one.
RootSound(n, S, N) == \A v \in 1..N : Check("solutions lost at the root", {a[v] : a \in S} \ Range(n[v]), {})

Level ==
    /\ IsEvent("level")
    /\ \E c \in {PrepareAll(Ev.cons, Ev.vars)} :
       \E p \in {Promise(Ev.cons[1], Ev.variant, Ev.vars)} :
       \E N \in {Len(Ev.vars)} :
       \E S \in {IF p = "none" THEN {} ELSE Solutions(IF p = "bc" THEN [v \in 1..N |-> Hull(Ev.vars[v])] ELSE Ev.vars, c)} :
          /\ Holds("nodes", \A k \in 1..Len(Ev.nodes) : \A v \in 1..N : Ev.nodes[k][v] # << >> /\ Range(Ev.nodes[k][v]) \subseteq Range(Ev.vars[v]))
          /\ \A k \in 1..Len(Ev.nodes) :
                CASE p = "gac" -> ArcConsistent(Ev.nodes[k], S, N)
                  [] p = "bc" -> BoundsConsistent(Ev.nodes[k], S, N)
                  [] p = "vc" -> ValueConsistent(Ev.nodes[k], Ev.cons[1])
                  [] OTHER -> TRUE
          /\ p \in {"gac", "vc"} => RootSound(Ev.nodes[1], S, N)

Next == Level
Spec == Init /\ [][Next]_l
=============================================================================
