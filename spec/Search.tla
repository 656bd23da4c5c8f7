-------------------------------- MODULE Search --------------------------------
(* The search: a depth-first walk over branching decisions, with propagation   *)
(* between them, an incumbent when there is an objective, and restarts that    *)
(* leave nogoods behind.                                                        *)
(*                                                                              *)
(* A task is a record                                                           *)
(*   doms    the variables' domains, a sequence of sets                         *)
(*   sols    the assignments that satisfy the model                             *)
(*   obj     [on |-> BOOLEAN, t |-> term, sign |-> 1 minimise, -1 maximise]     *)
(*   scale   of the Luby schedule, 0 for no restarts                            *)
(* Propagation is any narrowing that keeps every solution still to be found;    *)
(* it is the one thing left open here.  The counters are those reported.        *)
EXTENDS Integers, Sequences, FiniteSets, LubySeq

VARIABLES task, phase, stack, found, best, pass, spent, nogoods, count

svars == <<task, phase, stack, found, best, pass, spent, nogoods, count>>

NoBest == <<>>
Values(s) == {s[i] : i \in DOMAIN s}

TermOf(t, a) == IF t[1] = 0 THEN t[3] ELSE t[2] * a[t[1]] + t[3]

-----------------------------------------------------------------------------
\* Decisions: [t |-> term, op, k, k2]; the operators are closed under negation.

Passes(g, x) ==
    CASE g.op = "eq" -> x = g.k
      [] g.op = "ne" -> x # g.k
      [] g.op = "ge" -> x >= g.k
      [] g.op = "lt" -> x < g.k
      [] g.op = "in" -> g.k <= x /\ x <= g.k2
      [] g.op = "notin" -> ~(g.k <= x /\ x <= g.k2)

GuessHolds(g, a) == Passes(g, TermOf(g.t, a))

Opposite(op) ==
    CASE op = "eq" -> "ne" [] op = "ne" -> "eq" [] op = "ge" -> "lt" [] op = "lt" -> "ge"
      [] op = "in" -> "notin" [] op = "notin" -> "in"
Negated(g) == [g EXCEPT !.op = Opposite(@)]

\* the values of the term that a domain allows
TermDom(t, doms) == IF t[1] = 0 THEN {t[3]} ELSE {t[2] * x + t[3] : x \in doms[t[1]]}

Narrow(doms, t, Keep(_)) ==
    IF t[1] = 0 THEN doms
    ELSE [doms EXCEPT ![t[1]] = {x \in @ : Keep(t[2] * x + t[3])}]

Restrict(doms, g) == Narrow(doms, g.t, LAMBDA x : Passes(g, x))

-----------------------------------------------------------------------------
Cost(a) == task.obj.sign * TermOf(task.obj.t, a)
Better(c) == IF best = NoBest THEN TRUE ELSE c < best[1]

Bounded(doms) ==
    IF task.obj.on /\ best # NoBest
    THEN Narrow(doms, task.obj.t, LAMBDA x : Better(task.obj.sign * x))
    ELSE doms

Top == stack[Len(stack)]
Within(a, doms) == \A i \in DOMAIN a : a[i] \in doms[i]

\* where the node about to be entered starts from: its parent, the decision,
\* and the incumbent
Inherited ==
    Bounded(IF stack = <<>> THEN task.doms ELSE Restrict(Top.doms, Top.tried[Len(Top.tried)]))

\* the incumbent alone leaves nothing
ObjectiveFails ==
    /\ task.obj.on /\ best # NoBest
    /\ IF task.obj.t[1] = 0 THEN ~Better(task.obj.sign * task.obj.t[3]) ELSE TermDom(task.obj.t, Inherited) = {}

Pending(doms) ==
    {a \in task.sols : /\ Within(a, doms)
                       /\ ~\E i \in 1..Len(found) : found[i] = a
                       /\ task.obj.on => Better(Cost(a))}

Fixed(doms) == \A i \in 1..Len(doms) : Cardinality(doms[i]) = 1
TheOne(doms) == [i \in 1..Len(doms) |-> CHOOSE x \in doms[i] : TRUE]

\* every literal of a nogood is a decision that holds
Excluded(a) == \E n \in 1..Len(nogoods) : \A i \in 1..Len(nogoods[n]) : GuessHolds(nogoods[n][i], a)

Cutoff == LubyTerm(pass) * task.scale
CutNow == task.scale > 0 /\ spent >= Cutoff

Counted(d) ==
    [count EXCEPT !.recursions = @ + 1, !.depth = IF @ < d THEN d ELSE @]

FreshCount == [recursions |-> 0, failures |-> 0, solutions |-> 0, depth |-> 0, restarts |-> 0,
               dead |-> 0, objective |-> 0]

Setup(tk) ==
    /\ task' = tk /\ phase' = "enter" /\ stack' = <<>> /\ found' = <<>> /\ best' = NoBest
    /\ pass' = 1 /\ spent' = 0 /\ nogoods' = <<>> /\ count' = FreshCount

-----------------------------------------------------------------------------
\* The decisions that stay in a learned nogood: the second of two complementary
\* decisions is implied by the first one's own nogood.
ChildPrefix ==
    IF stack = <<>> THEN <<>>
    ELSE LET n == Len(Top.tried) g == Top.tried[n]
         IN  IF n = 2 /\ g = Negated(Top.tried[1]) THEN Top.prefix ELSE Append(Top.prefix, g)

\* A node survives propagation.
Sound(d) ==
    /\ Len(d) = Len(task.doms)
    /\ \A i \in 1..Len(d) : d[i] # {} /\ d[i] \subseteq Inherited[i]
    /\ \A a \in Pending(Inherited) : Within(a, d)

\* When everything is fixed, propagation has decided every constraint.
Decided(d) ==
    Fixed(d) => LET a == TheOne(d)
                IN  /\ a \in task.sols
                    /\ task.obj.on => Better(Cost(a))
                    /\ ~task.obj.on => ~Excluded(a)

Enter(d) ==
    /\ phase = "enter" /\ ~CutNow
    /\ Sound(d) /\ Decided(d)
    /\ stack' = Append(stack, [doms |-> d, tried |-> <<>>, refuted |-> <<>>, prefix |-> ChildPrefix, has |-> FALSE])
    /\ phase' = "branch"
    /\ count' = Counted(Len(stack))
    \* nothing undoes what was done at the root: the next pass starts from there
    /\ task' = IF stack = <<>> THEN [task EXCEPT !.doms = d] ELSE task
    /\ UNCHANGED <<found, best, pass, spent, nogoods>>

\* A finished node is the end of its parent's current decision.
Finished(st, has, complete) ==
    IF st = <<>> THEN st
    ELSE LET p == st[Len(st)]
         IN  [st EXCEPT ![Len(st)] =
                [p EXCEPT !.has = @ \/ has,
                          !.refuted = IF complete THEN Append(@, p.tried[Len(p.tried)]) ELSE @]]

Failures(c, st, has) == IF st = <<>> \/ has THEN c ELSE [c EXCEPT !.failures = @ + 1]

\* Propagation, or the incumbent, refutes a node.
Dead ==
    /\ phase = "enter" /\ ~CutNow
    /\ Pending(Inherited) = {}
    /\ stack' = Finished(stack, FALSE, TRUE)
    /\ phase' = IF stack = <<>> THEN "complete" ELSE "branch"
    /\ spent' = spent + 1
    /\ count' = Failures([Counted(Len(stack)) EXCEPT !.dead = @ + 1, !.objective = IF ObjectiveFails THEN @ + 1 ELSE @], stack, FALSE)
    /\ UNCHANGED <<task, found, best, pass, nogoods>>

\* The pass has spent its conflicts.
Cut ==
    /\ phase = "enter" /\ CutNow
    /\ count' = Failures(Counted(Len(stack)), stack, FALSE)
    /\ phase' = "unwind"
    /\ UNCHANGED <<task, stack, found, best, pass, spent, nogoods>>

Guess(g) ==
    /\ phase = "branch" /\ ~Fixed(Top.doms)
    /\ stack' = [stack EXCEPT ![Len(stack)].tried = Append(@, g)]
    /\ phase' = "enter"
    /\ UNCHANGED <<task, found, best, pass, spent, nogoods, count>>

Leaf ==
    /\ phase = "branch" /\ Fixed(Top.doms) /\ Top.tried = <<>>
    /\ LET a == TheOne(Top.doms)
           rest == SubSeq(stack, 1, Len(stack) - 1)
       IN  /\ found' = Append(found, a)
           /\ best' = IF task.obj.on THEN <<Cost(a)>> ELSE best
           /\ count' = [count EXCEPT !.solutions = @ + 1]
           /\ stack' = Finished(rest, TRUE, TRUE)
           /\ phase' = IF rest = <<>> THEN "complete" ELSE "branch"
    /\ UNCHANGED <<task, pass, spent, nogoods>>

\* The decisions tried at a node leave no value of anything out.
Covered(fr) ==
    LET ts == {g.t : g \in Values(fr.tried)}
    IN  /\ fr.tried # <<>>
        /\ Cardinality(ts) = 1
        /\ \A x \in TermDom(fr.tried[1].t, fr.doms) : \E g \in Values(fr.tried) : Passes(g, x)

Apart(fr) ==
    \A x \in TermDom(fr.tried[1].t, fr.doms) :
        Cardinality({i \in 1..Len(fr.tried) : Passes(fr.tried[i], x)}) <= 1

Close ==
    /\ phase = "branch" /\ Covered(Top)
    /\ LET rest == SubSeq(stack, 1, Len(stack) - 1)
       IN  /\ stack' = Finished(rest, Top.has, TRUE)
           /\ phase' = IF rest = <<>> THEN "complete" ELSE "branch"
           /\ count' = Failures(count, rest, Top.has)
    /\ UNCHANGED <<task, found, best, pass, spent, nogoods>>

\* Leaving a node whose pass is over: what it refuted is remembered.
Learned(fr) == [i \in 1..Len(fr.refuted) |-> Append(fr.prefix, fr.refuted[i])]

Unwind ==
    /\ phase = "unwind" /\ stack # <<>>
    /\ LET rest == SubSeq(stack, 1, Len(stack) - 1)
       IN  /\ stack' = Finished(rest, Top.has, FALSE)
           /\ count' = Failures(count, rest, Top.has)
           /\ nogoods' = nogoods \o Learned(Top)
    /\ UNCHANGED <<task, phase, found, best, pass, spent>>

Restart ==
    /\ phase = "unwind" /\ stack = <<>>
    /\ pass' = pass + 1 /\ spent' = 0 /\ phase' = "enter"
    /\ count' = [count EXCEPT !.restarts = @ + 1]
    /\ UNCHANGED <<task, stack, found, best, nogoods>>

\* A callback, or the abort flag, asks to stop: at a node, after a solution, or
\* between decisions.
Stop ==
    /\ phase \in {"branch", "enter", "complete"}
    /\ phase' = "stopping"
    /\ UNCHANGED <<task, stack, found, best, pass, spent, nogoods, count>>

Abandon ==
    /\ phase = "stopping" /\ stack # <<>>
    /\ LET rest == SubSeq(stack, 1, Len(stack) - 1)
       IN  /\ stack' = Finished(rest, Top.has, FALSE)
           /\ count' = Failures(count, rest, Top.has)
    /\ UNCHANGED <<task, phase, found, best, pass, spent, nogoods>>

-----------------------------------------------------------------------------
\* What is promised.

NoRepeats == Len(found) = Cardinality(Values(found))
OnlySolutions == Values(found) \subseteq task.sols
Improving == task.obj.on => \A i \in 1..(Len(found) - 1) : Cost(found[i + 1]) < Cost(found[i])
CompleteMeansAll ==
    phase = "complete" =>
        IF task.obj.on
        THEN IF task.sols = {} THEN found = <<>>
             ELSE found # <<>> /\ \A a \in task.sols : Cost(found[Len(found)]) <= Cost(a)
        ELSE Values(found) = task.sols
\* a nogood only ever hides what has been seen, or what the incumbent beats
NogoodsSound ==
    \A a \in task.sols : Excluded(a) =>
        IF task.obj.on THEN ~Better(Cost(a)) ELSE a \in Values(found)
Promises == NoRepeats /\ OnlySolutions /\ Improving /\ CompleteMeansAll /\ NogoodsSound
=============================================================================
