-------------------------- MODULE PropagationTrace --------------------------
(* Recorded work of the engine on scripted propagators, against Propagation. *)
EXTENDS Propagation, TraceBase

VARIABLES
    counts,  \* runs, runs that changed something, runs that met a contradiction
    changed, \* whether the run under way has changed anything
    since,   \* whether it has, since it last asked
    inits,   \* initialisers: [prio, round, done]
    round,   \* how often they have been called
    bounds   \* bounds defined, to be imposed by the next call

tvars == <<engine, counts, changed, since, inits, round, bounds, l>>
rest == <<counts, changed, since, inits, round, bounds>>

ToSet(s) == {s[i] : i \in DOMAIN s}

Empty ==
    /\ doms' = [i \in 1..Len(Ev.doms) |-> Ev.doms[i][1]..Ev.doms[i][2]]
    /\ props' = <<>> /\ retired' = {} /\ disabled' = {} /\ pend' = {} /\ armed' = {} /\ stale' = {} /\ fired' = {} /\ keeps' = {}
    /\ running' = 0 /\ dead' = FALSE /\ stable' = FALSE /\ saved' = <<>>
    /\ counts' = <<0, 0, 0>> /\ changed' = FALSE /\ since' = FALSE /\ inits' = <<>> /\ round' = 0 /\ bounds' = <<>>

Init ==
    /\ doms = <<>> /\ props = <<>> /\ retired = {} /\ disabled = {} /\ pend = {} /\ armed = {} /\ stale = {} /\ fired = {} /\ keeps = {}
    /\ running = 0 /\ dead = FALSE /\ stable = FALSE /\ saved = <<>>
    /\ counts = <<0, 0, 0>> /\ changed = FALSE /\ since = FALSE /\ inits = <<>> /\ round = 0 /\ bounds = <<>> /\ l = 1

TBegin == IsEvent("begin") /\ Empty
TInstall == IsEvent("install") /\ Install(Ev) /\ UNCHANGED rest
TRetire ==
    /\ IsEvent("retire")
    /\ Check("how many were retired", Ev.count, Cardinality(Retiring(ToSet(Ev.cids))))
    /\ Retire(ToSet(Ev.cids)) /\ UNCHANGED rest

TDecide == IsEvent("decide") /\ running = 0 /\ Impose(Ev.t, Ev.op, Ev.a, Ev.b, TRUE) /\ Holds("a decision taken is possible", ~dead') /\ UNCHANGED rest
TStart == IsEvent("start") /\ (IF Ev.all THEN StartAll ELSE UNCHANGED engine) /\ UNCHANGED rest

TRun ==
    /\ IsEvent("run")
    /\ Holds("a propagator given up is not run", Ev.p \in Enabled)
    /\ Check("the domains a propagator sees", [i \in 1..Len(Ev.doms) |-> ToSet(Ev.doms[i])], doms)
    /\ Holds("a condition is handed over once", Len(Ev.got) = Cardinality(ToSet(Ev.got)))
    /\ Holds("only conditions watched for, and certain, are handed over", ToSet(Ev.got) \subseteq Possible(Ev.p))
    /\ Run(Ev.p, ToSet(Ev.got))
    /\ \A v \in 1..Len(Ev.watching) :
        LET must == \E w \in armed' \cup fired' : w.p = Ev.p /\ w.t[1] = v
            may == must \/ \E w \in stale' : w.p = Ev.p /\ w.t[1] = v
        IN  Holds(<<"is_watching", v>>, IF Ev.watching[v] THEN may ELSE ~must)
    /\ Check("what a propagator keeps", Ev.kept, [k \in 1..Len(Ev.kept) |-> KeptFor(Ev.p, k - 1)])
    /\ counts' = [counts EXCEPT ![1] = @ + 1]
    /\ changed' = FALSE /\ since' = FALSE
    /\ UNCHANGED <<inits, round, bounds>>

Effect == doms' # doms \/ dead' # dead
TInfer ==
    /\ IsEvent("infer")
    /\ running # 0
    /\ Impose(Ev.t, Ev.op, Ev.a, Ev.b, TRUE)
    /\ changed' = (changed \/ Effect) /\ since' = (since \/ Effect)
    /\ UNCHANGED <<counts, inits, round, bounds>>
TContradict == IsEvent("contradict") /\ Contradict /\ UNCHANGED rest
TUpdated ==
    /\ IsEvent("updated")
    /\ Check("the bound an inference gives back", Ev.value, IF dead THEN <<>> ELSE IF Ev.upper THEN <<Max(Values(Ev.t))>> ELSE <<Min(Values(Ev.t))>>)
    /\ UNCHANGED <<engine, rest>>
TCarryOn == IsEvent("carry_on") /\ Check("whether to carry on", Ev.value, ~dead) /\ UNCHANGED <<engine, rest>>
TAsk ==
    /\ IsEvent("ask")
    /\ Check("whether progress was made since asking", Ev.value, since)
    /\ Check("whether a contradiction was met", Ev.dead, dead)
    /\ since' = FALSE /\ UNCHANGED <<engine, counts, changed, inits, round, bounds>>
TArm == IsEvent("arm") /\ Arm(running, Ev.t, Ev.op, Ev.a, Ev.b, Ev.pay) /\ UNCHANGED rest
TClear == IsEvent("clear") /\ Clear(running) /\ UNCHANGED rest
TKeep == IsEvent("keep") /\ Keep(running, Ev.k, Ev.x) /\ UNCHANGED rest

TFinish ==
    /\ IsEvent("finish")
    /\ IF dead THEN UNCHANGED <<engine, rest>>
       ELSE /\ Finish(running, Ev.how)
            /\ counts' = IF changed THEN [counts EXCEPT ![2] = @ + 1] ELSE counts
            /\ UNCHANGED <<changed, since, inits, round, bounds>>

TStop ==
    /\ IsEvent("stop")
    /\ Check("whether there was a contradiction", Ev.ok, ~dead)
    /\ Holds("nobody is owed a run", dead \/ Ev.aborted \/ pend \cap Enabled = {})
    /\ Holds("nobody is owed a condition", dead \/ Ev.aborted \/ {w \in fired : w.p \in Enabled} = {})
    /\ Check("the domains at the end", [i \in 1..Len(Ev.doms) |-> ToSet(Ev.doms[i])], IF dead THEN [i \in 1..Len(Ev.doms) |-> ToSet(Ev.doms[i])] ELSE doms)
    /\ Check("how many heard of the conflict", Len(Ev.conflicts), IF dead THEN 2 ELSE 0)
    /\ \A i \in DOMAIN Ev.conflicts :
        /\ Check("whose conflict it was", Ev.conflicts[i].cid, props[running].cid)
        /\ Check("what was in its scope", ToSet(Ev.conflicts[i].scope), Scope(running))
        /\ Check("whether it had a reason", Ev.conflicts[i].reason, Ev.reasoned)
    /\ counts' = IF dead THEN [counts EXCEPT ![3] = @ + 1] ELSE counts
    /\ Stop /\ UNCHANGED <<changed, since, inits, round, bounds>>

TSave == IsEvent("save") /\ Save /\ UNCHANGED rest
TReturn == IsEvent("return") /\ Return(Ev.to) /\ UNCHANGED rest

First(c) == CHOOSE p \in DOMAIN props : props[p].cid = c /\ \A q \in DOMAIN props : props[q].cid = c => p <= q

\* Everything that can be asked about what was installed.
TStatic ==
    /\ IsEvent("static")
    /\ LET vs == 1..Len(doms)
           ps == DOMAIN props
           cids == {props[p].cid : p \in ps}
           Of(c) == UNION {Scope(p) : p \in {q \in ps : props[q].cid = c}}
       IN  /\ Check("number_of_constraints", Ev.constraints, Cardinality(cids))
           /\ Check("degree_of", Ev.degree, [v \in vs |-> Cardinality({p \in ps : v \in Scope(p)})])
           /\ Check("degree_of a view", Ev.degree_view, Ev.degree)
           /\ Check("scope_of_propagator", [p \in 1..Len(Ev.scopes) |-> ToSet(Ev.scopes[p])], [p \in ps |-> Scope(p)])
           /\ Holds("a scope has no duplicates", \A p \in 1..Len(Ev.scopes) : Len(Ev.scopes[p]) = Cardinality(ToSet(Ev.scopes[p])))
           /\ Check("the constraint of a propagator", Ev.owner, [p \in ps |-> props[p].cid])
           /\ Check("constraints are numbered as they come", Ev.index, [p \in ps |-> Cardinality({props[r].cid : r \in 1..(First(props[p].cid) - 1)})])
           /\ Check("scope_of_constraint", {<<Ev.cscopes[i].cid, ToSet(Ev.cscopes[i].scope)>> : i \in DOMAIN Ev.cscopes}, {<<c, Of(c)>> : c \in cids})
           /\ Check("constraint_indices_of_variable", [v \in 1..Len(Ev.adjacent) |-> ToSet(Ev.adjacent[v])], [v \in vs |-> {c \in cids : v \in Of(c)}])
           /\ Holds("an adjacency has no duplicates", \A v \in 1..Len(Ev.adjacent) : Len(Ev.adjacent[v]) = Cardinality(ToSet(Ev.adjacent[v])))
    /\ UNCHANGED <<engine, rest>>

TStats ==
    /\ IsEvent("stats")
    /\ Check("propagation counters", <<Ev.runs, Ev.effectful, Ev.contradicting>>, counts)
    /\ Check("number of propagators", Ev.propagators, Len(props))
    /\ Check("claims that are not believed", Ev.downgrades, Cardinality({p \in DOMAIN props : props[p].aliased}))
    /\ UNCHANGED <<engine, rest>>

\* Initialisers: once each, by priority, and in order within one.
TAddInit == IsEvent("add_init") /\ inits' = Append(inits, [prio |-> Ev.prio, round |-> round, done |-> FALSE]) /\ UNCHANGED <<engine, counts, changed, since, round, bounds>>
TInitialise == IsEvent("initialise") /\ round' = round + 1 /\ UNCHANGED <<engine, counts, changed, since, inits, bounds>>
TInit ==
    /\ IsEvent("init")
    /\ Holds("an initialiser runs once", Ev.n \in DOMAIN inits /\ ~inits[Ev.n].done)
    /\ Holds("in order of registration", \A m \in DOMAIN inits : ~inits[m].done /\ inits[m].prio = inits[Ev.n].prio => m >= Ev.n)
    /\ Holds("in order of priority", \A m \in DOMAIN inits : ~inits[m].done /\ inits[m].round < round => inits[m].prio >= inits[Ev.n].prio \/ inits[Ev.n].round = round)
    /\ inits' = [inits EXCEPT ![Ev.n].done = TRUE]
    /\ UNCHANGED <<engine, counts, changed, since, round, bounds>>
TInitInfer == IsEvent("init_infer") /\ Impose(Ev.t, Ev.op, Ev.a, Ev.b, FALSE) /\ UNCHANGED rest
TDefine ==
    /\ IsEvent("define")
    /\ bounds' = Append(bounds, <<Ev.t, Ev.op, Ev.a>>)
    /\ UNCHANGED <<engine, counts, changed, since, inits, round>>
\* All of the bounds defined, imposed at once.
TInitialised ==
    /\ IsEvent("initialised")
    /\ \E new \in {[v \in DOMAIN doms |-> {x \in doms[v] : \A i \in DOMAIN bounds : bounds[i][1][1] = v => Allows(bounds[i][2], bounds[i][3], 0, bounds[i][1][2] * x + bounds[i][1][3])}]} :
       \E bad \in {dead \/ (\E v \in DOMAIN new : new[v] = {}) \/ \E i \in DOMAIN bounds : bounds[i][1][1] = 0 /\ ~Allows(bounds[i][2], bounds[i][3], 0, bounds[i][1][3])} :
        /\ Check("whether the initialisers met a contradiction", Ev.ok, ~bad)
        /\ Holds("every initialiser has run", bad \/ \A m \in DOMAIN inits : inits[m].done)
        /\ Check("the domains after them", [i \in 1..Len(Ev.doms) |-> ToSet(Ev.doms[i])], IF bad THEN [i \in 1..Len(Ev.doms) |-> ToSet(Ev.doms[i])] ELSE new)
        /\ Holds("a defect of the model is reported", Ev.declared = 0 \/ Ev.notes = Ev.declared)
        /\ doms' = (IF bad THEN doms ELSE new) /\ dead' = bad
        /\ stale' = stale \cup (IF bad THEN {} ELSE {w \in armed : Certain(new, w)})
        /\ armed' = IF bad THEN armed ELSE {w \in armed : ~Certain(new, w)}
        /\ UNCHANGED <<props, retired, disabled, pend, fired, keeps, running, stable, saved>>
    /\ bounds' = <<>>
    /\ UNCHANGED <<counts, changed, since, inits, round>>

Next ==
    \/ TBegin \/ TInstall \/ TRetire \/ TDecide \/ TStart \/ TRun \/ TInfer \/ TContradict \/ TUpdated \/ TCarryOn \/ TAsk \/ TArm \/ TClear \/ TKeep
    \/ TFinish \/ TStop \/ TSave \/ TReturn \/ TStatic \/ TStats \/ TAddInit \/ TInitialise \/ TInit \/ TInitInfer \/ TDefine \/ TInitialised
Spec == Init /\ [][Next]_tvars
=============================================================================
