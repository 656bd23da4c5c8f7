----------------------------- MODULE SearchTrace ----------------------------
(* Validates recorded searches: every node, decision, conflict, callback and   *)
(* counter of a run of the real solver is a step of Search.                     *)
EXTENDS TraceBase, Semantics, Rejections, Search, Branching

VARIABLES
    job,       \* the run: strategies, callbacks, degrees and scopes
    due,       \* the callback that has to come next
    conflicts, \* per constraint, plus those of the node being entered
    pend

PS == INSTANCE Presolvers

tvars == <<l, svars, job, due, conflicts, pend>>
Doms(d) == TLCEval([i \in 1..Len(d) |-> Values(d[i])])
Dec(g) == [t |-> g.t, op |-> g.op, k |-> g.k, k2 |-> g.k2]

-----------------------------------------------------------------------------
NoJob == [bad |-> FALSE, begun |-> FALSE]

Ready(e) == IsEvent(e) /\ Holds("callback " \o due \o " did not come", due = "none")
Same == UNCHANGED <<job, conflicts, pend>>

Begin ==
    /\ Ready("setup")
    /\ LET bad == \E i \in 1..Len(Ev.cons) : Rejected(Ev.cons[i], Ev.vars)
           cons == PrepareAll(Ev.cons, Ev.vars)
       IN  /\ Setup([doms |-> Doms(Ev.vars), sols |-> IF bad THEN {} ELSE TLCEval(Solutions(Ev.vars, cons)),
                     obj |-> Ev.obj, scale |-> Ev.scale])
           /\ job' = [bad |-> bad, begun |-> FALSE, strategies |-> Ev.strategies, pres |-> Ev.presolvers, cons |-> Ev.cons, vars |-> Ev.vars, trace |-> Ev.trace, stops |-> Ev.abort,
                      deg |-> <<>>, scopes |-> <<>>, total |-> 0, open |-> {}, gac |-> Ev.gac, sols |-> IF bad \/ ~Ev.gac THEN {} ELSE TLCEval(Solutions(Ev.vars, cons))]
    /\ due' = "none" /\ conflicts' = <<>> /\ pend' = 0

Started ==
    /\ Ready("started")
    /\ LET d == Doms(Ev.doms)
       IN  /\ Holds("domains before search", \A i \in 1..Len(d) : \A x \in d[i] : Least(task.doms[i]) <= x /\ x <= Most(task.doms[i]))
           /\ Holds("domains before search keep solutions", \A a \in task.sols : Within(a, d))
    /\ UNCHANGED <<svars, due>> /\ Same

Heuristic ==
    /\ Ready("begin")
    /\ job' = [job EXCEPT !.begun = TRUE, !.deg = Ev.deg, !.scopes = Doms(Ev.scopes)]
    /\ conflicts' = [i \in 1..Len(Ev.scopes) |-> 0]
    /\ UNCHANGED <<svars, due, pend>>

Conflict ==
    /\ Ready("conflict")
    /\ Holds("a conflict outside propagation", phase = "enter" /\ pend = 0)
    /\ conflicts' = [conflicts EXCEPT ![Ev.c + 1] = @ + 1]
    /\ pend' = 1 /\ job' = [job EXCEPT !.total = @ + 1]
    /\ UNCHANGED <<svars, due>>

\* what the state says about one term
Answers(q, doms) ==
    LET S == TermDom(q.t, doms)
    IN  /\ Check("values", q.vals, Sorted(S))
        /\ Check("values reversed", q.rev, Rev(Sorted(S)))
        /\ Check("copied values", q.copy, Sorted(S))
        /\ Check("lower bound", q.lo, Least(S))
        /\ Check("upper bound", q.hi, Most(S))
        /\ Check("size", q.size, Cardinality(S))
        /\ Check("single value", q.single, Cardinality(S) = 1)
        /\ Check("in domain", q.isin, q.k \in S)

\* every value left is that of some satisfying assignment
Supported(d) == \A i \in 1..Len(d) : {a[i] : a \in {a \in job.sols : Within(a, d)}} = d[i]

Node ==
    /\ Ready("node")
    /\ LET d == Doms(Ev.doms)
       IN  /\ Holds("entered a node though the pass was over", phase = "enter" /\ ~CutNow)
           /\ Holds("a node survives a conflict", pend = 0)
           /\ Holds("domains of a node", \A i \in 1..Len(d) : d[i] # {} /\ d[i] \subseteq Inherited[i])
           /\ Holds("solutions lost by propagation", \A a \in Pending(Inherited) : Within(a, d))
           /\ Holds("a leaf is a new solution", Fixed(d) =>
                        LET a == TheOne(d) IN a \in task.sols /\ (IF task.obj.on THEN Better(Cost(a)) ELSE a \notin Values(found)))
           /\ Holds("a value without support", job.gac => Supported(d))
           /\ Enter(d)
           /\ Answers(Ev.q, d)
    /\ job' = [job EXCEPT !.open = Values(Ev.open)]
    /\ UNCHANGED <<due, conflicts, pend>>

-----------------------------------------------------------------------------
\* constraints may have variables of their own
Open(u) == IF u <= Len(Top.doms) THEN Cardinality(Top.doms[u]) > 1 ELSE u \in job.open

Weight(v) == SumOver(LAMBDA c :
    IF v \in job.scopes[c] /\ Cardinality({u \in job.scopes[c] : Open(u)}) >= 2 THEN 1 + conflicts[c] ELSE 0,
    Len(job.scopes))

Chosen(h) ==
    LET S == [i \in 1..Len(h.vars) |-> TermDom(h.vars[i], Top.doms)]
        base(i) == h.vars[i][1]
        Deg == [i \in 1..Len(h.vars) |-> IF base(i) = 0 THEN 0 ELSE job.deg[base(i)]]
        W == IF h.vo = "dom_wdeg" THEN [i \in 1..Len(h.vars) |-> IF base(i) = 0 THEN 0 ELSE Weight(base(i))] ELSE Deg
    IN  {h.vars[i] : i \in Picks(h.vo, S, Deg, W)}

\* strategies run one after the other: the first with anything left to decide
RECURSIVE Active(_)
Active(i) == IF i > Len(job.strategies) THEN 0 ELSE IF Chosen(job.strategies[i]) # {} THEN i ELSE Active(i + 1)

Kept(g) == {x \in TermDom(g.t, Top.doms) : Passes(g, x)}
Parts == [i \in 1..Len(Top.tried) |-> Kept(Top.tried[i])]

Decide ==
    /\ Ready("guess")
    /\ Holds("a decision at a finished node", phase = "branch" /\ ~Fixed(Top.doms))
    /\ LET g == Dec(Ev.g)
           n == Active(1)
           h == job.strategies[n]
           S == TermDom(g.t, Top.doms)
       IN  /\ Holds("the variable picked", IF Top.tried = <<>> THEN g.t \in Chosen(h) ELSE g.t = Top.tried[1].t)
           /\ Holds("the decision offered", Kept(g) \in Next1(h.val, S, g.t[2] = 1 /\ g.t[3] = 0, Parts))
           /\ Guess(g)
    /\ due' = IF job.trace /\ Top.tried = <<>> THEN "trace" ELSE "none"
    /\ Same

Traced ==
    /\ IsEvent("trace") /\ Holds("trace callback", due = "trace")
    /\ Check("domains traced", Doms(Ev.doms), Top.doms)
    /\ due' = "none" /\ UNCHANGED svars /\ Same

Refuted ==
    /\ Ready("childless")
    /\ Holds("a cut-off pass went on", phase = "enter" /\ ~CutNow)
    /\ Holds("solutions lost", Pending(Inherited) = {})
    /\ Holds("a node refuted without a conflict", pend = 1 \/ ObjectiveFails)
    /\ Dead
    /\ pend' = 0 /\ UNCHANGED <<job, due, conflicts>>

CutOff ==
    /\ Ready("cut") /\ Holds("cut though the pass was not over", phase = "enter" /\ CutNow)
    /\ pend = 0 /\ Cut /\ UNCHANGED due /\ Same

AtLeaf ==
    /\ Ready("leaf") /\ Holds("a leaf", phase = "branch" /\ Fixed(Top.doms) /\ Top.tried = <<>>)
    /\ Leaf
    /\ due' = "solution" /\ Same

Reported ==
    /\ IsEvent("solution") /\ Holds("solution callback", due = "solution")
    /\ Check("solution", Ev.a, found[Len(found)])
    /\ Check("objective value", Ev.obj, IF task.obj.on THEN task.obj.sign * best[1] ELSE 0)
    /\ due' = "none" /\ UNCHANGED svars /\ Same

Exhausted ==
    /\ Ready("close")
    /\ Holds("no decision outstanding", phase = "branch")
    /\ Holds("decisions leave a value out", Covered(Top))
    /\ Holds("decisions overlap", Apart(Top))
    /\ Close /\ UNCHANGED due /\ Same

Leaves ==
    /\ Ready("leave")
    /\ Holds("left a node early", phase \in {"unwind", "stopping"})
    /\ IF phase = "unwind" THEN Unwind ELSE Abandon
    /\ pend' = 0 /\ UNCHANGED <<due, job, conflicts>>

Stops ==
    /\ Ready("stop") /\ Holds("stopped unasked", job.stops) /\ Stop
    /\ UNCHANGED due /\ Same

Restarts ==
    /\ Ready("restart") /\ Holds("a restart out of place", phase = "unwind" /\ stack = <<>>)
    /\ Restart
    /\ Holds("a nogood hides a solution", NogoodsSound)
    /\ UNCHANGED due /\ Same

\* callbacks may have asked to stop when nothing was left to do
CanEnd == phase = "complete" \/ (phase = "stopping" /\ stack = <<>>) \/ ~job.begun

Ends ==
    /\ Ready("end")
    /\ Check("rejected", Ev.thrown, IF job.bad THEN "invalid" ELSE "no")
    /\ IF job.bad THEN TRUE ELSE
       (/\ Holds("ended with work left", CanEnd)
        /\ Holds("refuted a model that has solutions", job.begun \/ task.sols = {})
        /\ Check("completed", Ev.completed, ~job.begun \/ phase = "complete")
        /\ LET s == Ev.stats
               more == IF phase = "stopping" THEN 1 ELSE 0
           IN  /\ Holds("recursions", s.recursions \in count.recursions..(count.recursions + more))
               /\ Holds("failures", s.failures \in count.failures..(count.failures + more))
               /\ Check("solutions", s.solutions, count.solutions)
               /\ Holds("max depth", s.max_depth \in count.depth..(count.depth + more))
               /\ Check("restarts", s.restarts, count.restarts)
               /\ Check("learned nogoods", s.learned_nogoods, Len(nogoods))
               \* presolvers may try things out before the search is watched
               /\ Holds("contradictions", IF job.pres = <<>> THEN s.contradicting = job.total ELSE s.contradicting >= job.total)
               /\ Holds("propagations", s.effectful >= 0 /\ s.effectful + s.contradicting <= s.propagations)
        /\ \A i \in 1..Len(Ev.clones) : Check("a kept state changed", Ev.clones[i].now, Ev.clones[i].was))
    /\ UNCHANGED <<svars, due>> /\ Same

\* the same search without a strategy of its own, or run a second time
Repeated ==
    /\ Ready("repeat")
    /\ Check(Ev.what, Ev.second, Ev.first)
    /\ UNCHANGED <<svars, due>> /\ Same

\* what the presolvers say about themselves
Named(ps, n) == {i \in 1..Len(ps) : ps[i].n = n}
Nth(i, ps) == Cardinality({j \in Named(ps, ps[i].n) : j <= i})
AutoTables == SelectSeq(job.pres, LAMBDA p : p.p = "auto_table")
Components ==
    /\ Ready("components")
    /\ \A i \in 1..Len(Ev.parts) :
          LET p == Ev.parts[i]
          IN  /\ Holds("silent", p.said)
              /\ Holds(<<"negative", p>>, \A j \in 1..Len(p.e) : p.e[j][2] >= 0)
              /\ p.n = "difference_logic" => Holds(<<"difference logic counts", PS!Wrong(p.e, job.cons)>>, PS!Wrong(p.e, job.cons) = {})
              /\ p.n = "auto_table" =>
                    LET q == AutoTables[Nth(i, Ev.parts)]
                    IN  Holds(<<"auto table counts", PS!TableWrong(p.e, q, job.vars, task.sols)>>, PS!TableWrong(p.e, q, job.vars, task.sols) = {})
    /\ \A n \in {job.pres[i].p : i \in 1..Len(job.pres)} :
          Holds(<<"unreported", n>>,
                \/ ~job.begun
                \/ Cardinality(Named(Ev.parts, n)) >= Cardinality({i \in 1..Len(job.pres) : job.pres[i].p = n}))
    /\ UNCHANGED <<svars, due>> /\ Same

Init ==
    /\ l = 1 /\ job = NoJob /\ due = "none" /\ conflicts = <<>> /\ pend = 0
    /\ task = [doms |-> <<>>, sols |-> {}, obj |-> [on |-> FALSE, t |-> <<0, 1, 0>>, sign |-> 1], scale |-> 0]
    /\ phase = "none" /\ stack = <<>> /\ found = <<>> /\ best = NoBest
    /\ pass = 1 /\ spent = 0 /\ nogoods = <<>> /\ count = FreshCount

Next == Begin \/ Started \/ Heuristic \/ Conflict \/ Node \/ Decide \/ Traced \/ Refuted \/ CutOff \/ AtLeaf
        \/ Reported \/ Exhausted \/ Leaves \/ Stops \/ Restarts \/ Ends \/ Repeated \/ Components

Spec == Init /\ [][Next]_tvars

AlwaysOnce == NoRepeats
=============================================================================
