------------------------------ MODULE OpbTrace ------------------------------
(* Judges recorded pseudo-Boolean model files by what they allow: an         *)
(* assignment of the model's variables, written in bits, can be completed to *)
(* satisfy the file exactly when it satisfies every posted constraint; bits  *)
(* that stand for no value of a variable cannot; a condition on a variable   *)
(* has the truth value its name says; and the objective is the model's up to *)
(* a constant.                                                               *)
EXTENDS ProofTrace

\* The literals that give variable i value k, in the ways its bits allow.
Patterns(bits) == {TLCEval([v |-> FoldLeft(LAMBDA a, b : IF b[2] \in T THEN a + b[1] ELSE a, 0, bits),
                            lits |-> {IF bits[j][2] \in T THEN bits[j][2] ELSE -bits[j][2] : j \in 1..Len(bits)}]) :
                      T \in SUBSET {bits[j][2] : j \in 1..Len(bits)}}
BitsFor(bits, k) == {p.lits : p \in {q \in Patterns(bits) : q.v = k}}

Completes(p, lits) ==
    LET occs == TLCEval(p.eager \cup UNION {p.occ[Slot(p.n, -x)] : x \in lits})
    IN  Extends(p.n, p.db, p.occ, 1..p.last, Propagate(p.n, p.db, p.occ, {}, lits, occs))
Under(p, lits) ==
    LET occs == TLCEval(p.eager \cup UNION {p.occ[Slot(p.n, -x)] : x \in lits})
    IN  Propagate(p.n, p.db, p.occ, {}, lits, occs)

\* Every way a posted assignment can be written in bits (one, normally).
Writings(a) == FoldLeft(LAMBDA acc, i : {x \cup y : x \in acc, y \in BitsFor(M.bits[i], a[i])}, {{}}, [i \in 1..Len(a) |-> i])


Truth(r, k) == CASE r.op = ">=" -> k >= r.k [] r.op = "=" -> k = r.k [] OTHER -> r.k <= k /\ k <= r.hi

UserConditions(map) ==
    {i \in 1..Len(map) : /\ map[i].type = "condition" /\ map[i].key \in DOMAIN M.index
                         /\ \E v \in 1..Len(M.begin.vars) : map[i].name = "v" \o ToString(v) /\ map[i].cpt = "intvar"}
VariableOf(r) == CHOOSE v \in 1..Len(M.begin.vars) : r.name = "v" \o ToString(v)

Judged ==
    /\ IsEvent("judge")
    /\ LET vs == M.begin.vars
           want == TLCEval(Solutions(vs, PrepareAll(M.begin.cons, vs)))
           everything == TLCEval(Assignments(vs, Len(vs)))
           got == TLCEval({a \in everything : \E w \in Writings(a) : Completes(P, w)})
           strange(i) == {p \in Patterns(M.bits[i]) : p.v \notin ToSet(vs[i])}
           conds == UserConditions(Ev.map)
           goal(a) == (IF M.begin.minimise THEN 1 ELSE -1) * (M.begin.goal[2] * a[M.begin.goal[1]] + M.begin.goal[3])
           gaps == {ObjectiveUnder(Under(P, w)) - goal(a) : <<a, w>> \in UNION {{<<b, x>> : x \in Writings(b)} : b \in want}}
       IN  /\ Check("assignments the file allows that are no solutions", got \ want, {})
           /\ Check("solutions the file does not allow", want \ got, {})
           /\ Check("bit patterns outside the domain that the file allows",
                    {<<i, p.v>> : <<i, p>> \in {<<i, p>> \in UNION {{<<j, q>> : q \in strange(j)} : j \in 1..Len(vs)} : Completes(P, p.lits)}}, {})
           /\ Check("conditions that can be other than their variable says",
                    {<<r.key, a>> : <<r, a>> \in {<<r, a>> \in {Ev.map[i] : i \in conds} \X want :
                        \E w \in Writings(a) :
                            LET x == M.index[r.key] IN Completes(P, w \cup {IF Truth(r, a[VariableOf(r)]) THEN -x ELSE x})}}, {})
           /\ IF M.begin.objective >= 0 THEN Holds("the objective is the model's, up to a constant", Cardinality(gaps) <= 1) ELSE TRUE
           /\ IF M.begin.objective >= 0 /\ M.begin.goal[3] = 0 THEN Check("the objective of a variable has no constant", gaps \ {0}, {}) ELSE TRUE
           /\ Check("the variables that solutions are counted by", \A i \in 1..Len(vs) : M.haspres => {M.bits[i][j][2] : j \in 1..Len(M.bits[i])} \subseteq M.preserved, TRUE)
    /\ P' = None /\ M' = None /\ UNCHANGED <<sols, ctx, fin>>

NextOpb == Begin \/ Model \/ Judged
SpecOpb == Init /\ [][NextOpb]_vars
=============================================================================
