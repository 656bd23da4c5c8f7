--------------------------- MODULE PseudoBoolean ---------------------------
(* Linear inequalities over 0-1 variables, and the reasoning the proof       *)
(* format is defined by. A literal is a variable's number, negative for its  *)
(* negation. A constraint says that the sum of the (positive) coefficients   *)
(* of its true literals is at least d:                                       *)
(*   [t |-> << <<coefficient, literal>>, ... >>, d |-> degree, m |-> the     *)
(*    largest coefficient]                                                   *)
(* with each variable at most once.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Sgn(x) == IF x < 0 THEN -1 ELSE 1
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

Sum(t) == FoldLeft(LAMBDA a, p : a + p[1], 0, t)
MaxCoeff(t) == FoldLeft(LAMBDA a, p : IF p[1] > a THEN p[1] ELSE a, 0, t)
LitsOf(c) == {c.t[i][2] : i \in 1..Len(c.t)}
VarsOf(c) == {Abs(c.t[i][2]) : i \in 1..Len(c.t)}

Make(t, d) == [t |-> t, d |-> d, m |-> MaxCoeff(t)]

Trivial == Make(<<>>, 0)

----------------------------------------------------------------------------
(* Sparse form: a signed coefficient per variable, negative meaning that it   *)
(* is the variable's negation that has the coefficient's size.               *)

Sparse(c) == [k |-> [v \in VarsOf(c) |-> LET p == CHOOSE q \in ToSet(c.t) : Abs(q[2]) = v IN Sgn(p[2]) * p[1]], d |-> c.d]

Dense(s) == Make(TLCEval([i \in 1..Cardinality(DOMAIN s.k) |->
                    LET v == SetToSeq(DOMAIN s.k)[i] IN <<Abs(s.k[v]), Sgn(s.k[v]) * v>>]), s.d)

\* Adding two constraints: a literal and its negation cancel to a constant.
AddC(a, b) ==
    LET vs   == DOMAIN a.k \cup DOMAIN b.k
        A(v) == IF v \in DOMAIN a.k THEN a.k[v] ELSE 0
        B(v) == IF v \in DOMAIN b.k THEN b.k[v] ELSE 0
        both == {v \in DOMAIN a.k : v \in DOMAIN b.k /\ Sgn(a.k[v]) # Sgn(b.k[v])}
        lost == FoldSet(LAMBDA v, acc : acc + MinOf(Abs(a.k[v]), Abs(b.k[v])), 0, both)
    IN  TLCEval([k |-> TLCEval([v \in {w \in vs : A(w) + B(w) # 0} |-> A(v) + B(v)]), d |-> a.d + b.d - lost])

MulC(a, n) == [k |-> TLCEval([v \in (IF n = 0 THEN {} ELSE DOMAIN a.k) |-> a.k[v] * n]), d |-> a.d * n]

DivC(a, n) == [k |-> TLCEval([v \in DOMAIN a.k |-> Sgn(a.k[v]) * CeilDiv(Abs(a.k[v]), n)]),
               d |-> IF a.d > 0 THEN CeilDiv(a.d, n) ELSE -((-a.d) \div n)]

SatC(a) == LET d == IF a.d > 0 THEN a.d ELSE 0
           IN  [k |-> TLCEval([v \in (IF d = 0 THEN {} ELSE DOMAIN a.k) |-> Sgn(a.k[v]) * MinOf(Abs(a.k[v]), d)]), d |-> d]

\* Weakening: giving up on a variable, as if its literal were true.
WeakenC(a, v) == IF v \in DOMAIN a.k
                 THEN [k |-> TLCEval([w \in DOMAIN a.k \ {v} |-> a.k[w]]), d |-> a.d - Abs(a.k[v])]
                 ELSE a

LitC(x) == [k |-> (Abs(x) :> Sgn(x)), d |-> 0]

\* An inequality as written: any integers as coefficients, any repetition.
OneTerm(p) == IF p[1] >= 0 THEN <<p[1], p[2]>> ELSE <<-p[1], -p[2]>>
Offset(t) == FoldLeft(LAMBDA a, p : IF p[1] < 0 THEN a - p[1] ELSE a, 0, t)

Norm(t, d) ==
    IF Cardinality({Abs(t[i][2]) : i \in 1..Len(t)}) = Len(t)
    THEN Make(TLCEval(SelectSeq([i \in 1..Len(t) |-> OneTerm(t[i])], LAMBDA p : p[1] # 0)), d + Offset(t))
    ELSE LET S == FoldLeft(LAMBDA a, p : IF p[1] = 0 THEN a ELSE AddC(a, MulC(LitC(OneTerm(p)[2]), OneTerm(p)[1])),
                           [k |-> <<>>, d |-> 0], t)
         IN  Dense([k |-> S.k, d |-> S.d + d + Offset(t)])

Negation(c) == Make([i \in 1..Len(c.t) |-> <<c.t[i][1], -c.t[i][2]>>], Sum(c.t) - c.d + 1)

Contradictory(c) == Sum(c.t) < c.d

SameC(a, b) == a.d = b.d /\ ToSet(a.t) = ToSet(b.t)

\* Follows from one constraint by weakening and saturation.
CoeffOf(c, x) == LET S == {i \in 1..Len(c.t) : c.t[i][2] = x} IN IF S = {} THEN 0 ELSE c.t[CHOOSE i \in S : TRUE][1]
ImpliesC(a, b) ==
    \/ b.d <= 0
    \* giving up what b does not have, where b is not already saturated
    \/ a.d - FoldLeft(LAMBDA acc, p : LET k == CoeffOf(b, p[2])
                                      IN acc + (IF k < b.d /\ p[1] > k THEN p[1] - k ELSE 0), 0, a.t) >= b.d
    \* or after giving up some of the degree, and saturating
    \/ \E e \in {a.d, b.d} :
        /\ e <= a.d
        /\ LET lost == FoldLeft(LAMBDA acc, p : LET q == MinOf(p[1], e)
                                                   k == CoeffOf(b, p[2])
                                               IN acc + (IF q > k THEN q - k ELSE 0), 0, a.t)
           IN  e - lost >= b.d

\* Substitution of variables by constants (0, 1) or literals.
Substitute(c, wc, wl) ==
    LET One(p) ==
            LET v == Abs(p[2])
                C == {i \in 1..Len(wc) : Abs(wc[i][1]) = v}
                L == {i \in 1..Len(wl) : Abs(wl[i][1]) = v}
            IN  IF C # {} THEN LET w == wc[CHOOSE i \in C : TRUE]
                                   tr == (Sgn(w[1]) * Sgn(p[2]) = 1) = (w[2] = 1)
                               IN  [t |-> <<>>, c |-> IF tr THEN p[1] ELSE 0]
                ELSE IF L # {} THEN LET w == wl[CHOOSE i \in L : TRUE]
                                    IN  [t |-> << <<p[1], Sgn(w[1]) * Sgn(p[2]) * w[2]>> >>, c |-> 0]
                ELSE [t |-> <<p>>, c |-> 0]
        r == FoldLeft(LAMBDA acc, p : LET o == One(p) IN [t |-> acc.t \o o.t, c |-> acc.c + o.c], [t |-> <<>>, c |-> 0], c.t)
    IN  Norm(r.t, c.d - r.c)

----------------------------------------------------------------------------
(* Unit propagation. db is a sequence of constraints, occ[Slot(x)] the       *)
(* positions of those that mention literal x, rho the set of true literals.  *)

\* The literals a constraint forces under rho, with 0 for a contradiction.
Implied(c, rho) ==
    LET s == FoldLeft(LAMBDA a, p : IF -p[2] \in rho THEN a ELSE a + p[1], -c.d, c.t)
    IN  IF s < 0 THEN {0}
        ELSE IF c.m <= s THEN {}
        ELSE {c.t[i][2] : i \in {j \in 1..Len(c.t) : c.t[j][1] > s /\ c.t[j][2] \notin rho /\ -c.t[j][2] \notin rho}}

Slot(n, x) == IF x > 0 THEN x ELSE n - x

Conflict == {0}

\* Everything that follows from db and the constraints ex by unit propagation,
\* or Conflict. first: the positions in db to look at to begin with.
RECURSIVE Propagate(_, _, _, _, _, _)
Propagate(n, db, occ, ex, rho, first) ==
    LET imp == TLCEval(UNION ({Implied(db[i], rho) : i \in first} \cup {Implied(c, rho) : c \in ex}))
    IN  IF 0 \in imp \/ \E x \in imp : -x \in imp THEN Conflict
        ELSE IF imp = {} THEN rho
        ELSE Propagate(n, db, occ, ex, TLCEval(rho \cup imp), TLCEval(UNION {occ[Slot(n, -x)] : x \in imp}))

\* Would force something, or fail, with nothing assigned.
Eager(c) == Sum(c.t) - c.d < c.m \/ Contradictory(c)

\* Whether what is true already can be completed to satisfy everything.
RECURSIVE Extends(_, _, _, _, _)
Extends(n, db, occ, todo, rho) ==
    IF rho = Conflict THEN FALSE
    ELSE LET left == TLCEval({i \in todo : FoldLeft(LAMBDA a, p : IF p[2] \in rho THEN a + p[1] ELSE a, 0, db[i].t) < db[i].d})
         IN  IF left = {} THEN TRUE
             ELSE LET c == db[CHOOSE i \in left : TRUE]
                      x == c.t[CHOOSE j \in 1..Len(c.t) : c.t[j][2] \notin rho /\ -c.t[j][2] \notin rho][2]
                  IN  \/ Extends(n, db, occ, left, Propagate(n, db, occ, {}, rho \cup {x}, occ[Slot(n, -x)]))
                      \/ Extends(n, db, occ, left, Propagate(n, db, occ, {}, rho \cup {-x}, occ[Slot(n, x)]))

SatisfiedBy(c, rho) == FoldLeft(LAMBDA a, p : IF p[2] \in rho THEN a + p[1] ELSE a, 0, c.t) >= c.d
=============================================================================
