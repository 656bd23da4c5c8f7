----------------------------- MODULE Propagation -----------------------------
(* Who has to be run: propagators ask to be woken for kinds of change to      *)
(* variables, and watch for conditions to become certain. An engine may run   *)
(* them in any order, and too often, but it may not stop while one is owed a  *)
(* run or a condition it watched for. A term is <<v, c, o>>, as in StateStore.*)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

VARIABLES
    doms,     \* the set of values of each variable
    props,    \* what every propagator asked for
    retired,  \* propagators given up for good
    disabled, \* propagators given up until the engine returns to before
    pend,     \* propagators owed a run
    armed,    \* the conditions watched for: [p, t, op, a, b, pay]
    stale,    \* those that became certain without anybody being woken
    fired,    \* those that became certain, and are still to be handed over
    keeps,    \* what each propagator keeps: a set of <<p, key, value>>
    running,  \* the propagator being run, or 0
    dead,     \* a contradiction was met
    stable,   \* the engine stopped, and said so
    saved     \* the points to return to

engine == <<doms, props, retired, disabled, pend, armed, stale, fired, keeps, running, dead, stable, saved>>

ValuesIn(ds, t) == IF t[1] = 0 THEN {t[3]} ELSE {t[2] * x + t[3] : x \in ds[t[1]]}
Values(t) == ValuesIn(doms, t)

Allows(op, a, b, x) ==
    CASE op = "eq" -> x = a
      [] op = "ne" -> x # a
      [] op = "lt" -> x < a
      [] op = "ge" -> x >= a
      [] op = "in" -> a <= x /\ x <= b
      [] op = "notin" -> ~(a <= x /\ x <= b)

Kept(S, op, a, b) == {x \in S : Allows(op, a, b, x)}
Certain(ds, w) == \A x \in ValuesIn(ds, w.t) : Allows(w.op, w.a, w.b, x)

Report(S, new) ==
    IF new = {} THEN "contradiction"
    ELSE IF new = S THEN "none"
    ELSE IF Cardinality(new) = 1 THEN "instantiated"
    ELSE IF Min(new) # Min(S) \/ Max(new) # Max(S) THEN "bounds"
    ELSE "interior"

Under(ts) == {ts[i][1] : i \in DOMAIN ts} \ {0}
Scope(p) == props[p].scope
Wakes(p, v, report) ==
    \/ v \in props[p].change
    \/ v \in props[p].bounds /\ report \in {"bounds", "instantiated"}
    \/ v \in props[p].inst /\ report = "instantiated"

Enabled == DOMAIN props \ (retired \cup disabled)

\* Two of the places a propagator works on are the same variable: what it says
\* about being at its fixpoint is not believed.
Aliased(c) ==
    LET all == c.change \o c.bounds \o c.inst \o c.scope
    IN  \E i, j \in DOMAIN all : i < j /\ all[i][1] = all[j][1] /\ all[i][1] # 0

Install(c) ==
    LET p == Len(props) + 1
        ws == {[p |-> p, t |-> w[1], op |-> w[2], a |-> w[3], b |-> w[4], pay |-> w[5]] : w \in {c.refined[i] : i \in DOMAIN c.refined}}
        real == {w \in ws : w.t[1] # 0}
    IN  /\ running = 0
        /\ props' = Append(props, [cid |-> c.cid, change |-> Under(c.change), bounds |-> Under(c.bounds), inst |-> Under(c.inst),
                                   scope |-> Under(c.change) \cup Under(c.bounds) \cup Under(c.inst) \cup Under(c.scope) \cup {w.t[1] : w \in real},
                                   aliased |-> Aliased(c)])
        /\ armed' = armed \cup {w \in real : ~Certain(doms, w)}
        /\ stale' = stale \cup {w \in real : Certain(doms, w)}
        /\ stable' = FALSE
        /\ UNCHANGED <<doms, retired, disabled, pend, fired, keeps, running, dead, saved>>

Retire(cids) ==
    /\ running = 0
    /\ retired' = retired \cup {p \in DOMAIN props : props[p].cid \in cids}
    /\ UNCHANGED <<doms, props, disabled, pend, armed, stale, fired, keeps, running, dead, stable, saved>>
Retiring(cids) == {p \in DOMAIN props : props[p].cid \in cids} \ retired

\* A condition is imposed, by a propagator or from outside; before anything is
\* run at all, nobody need be woken, because everybody will be.
Impose(t, op, a, b, waking) ==
    LET S == Values(t)
        new == Kept(S, op, a, b)
        ds == IF t[1] = 0 THEN doms ELSE [doms EXCEPT ![t[1]] = {x \in @ : (t[2] * x + t[3]) \in new}]
        r == Report(S, new)
    IN  IF dead \/ r = "none" THEN UNCHANGED engine
        ELSE IF r = "contradiction" THEN dead' = TRUE /\ UNCHANGED <<doms, props, retired, disabled, pend, armed, stale, fired, keeps, running, stable, saved>>
        ELSE /\ doms' = ds
             /\ LET sure == {w \in armed : w.t[1] = t[1] /\ Certain(ds, w)}
                IN  /\ armed' = armed \ sure
                    /\ fired' = IF waking THEN fired \cup sure ELSE fired
                    /\ stale' = IF waking THEN stale ELSE stale \cup sure
             /\ pend' = IF waking THEN pend \cup {p \in DOMAIN props : Wakes(p, t[1], r)} ELSE pend
             /\ stable' = FALSE
             /\ UNCHANGED <<props, retired, disabled, keeps, running, dead, saved>>

Contradict == dead' = TRUE /\ UNCHANGED <<doms, props, retired, disabled, pend, armed, stale, fired, keeps, running, stable, saved>>

\* At the root, everybody is run.
StartAll ==
    /\ running = 0 /\ ~dead
    /\ pend' = DOMAIN props /\ disabled' = {} /\ stable' = FALSE
    /\ UNCHANGED <<doms, props, retired, armed, stale, fired, keeps, running, dead, saved>>

Run(p, pays) ==
    /\ running = 0 /\ ~dead
    /\ p \in Enabled
    /\ running' = p
    /\ pend' = pend \ {p}
    /\ LET given == {w \in fired \cup stale : w.p = p /\ w.pay \in pays}
       IN  fired' = fired \ given /\ stale' = stale \ given
    /\ stable' = FALSE
    /\ UNCHANGED <<doms, props, retired, disabled, armed, keeps, dead, saved>>
Owed(p) == {w.pay : w \in {x \in fired : x.p = p}}
Possible(p) == {w.pay : w \in {x \in fired \cup stale : x.p = p}}

Arm(p, t, op, a, b, pay) ==
    /\ running = p
    /\ armed' = armed \cup {[p |-> p, t |-> t, op |-> op, a |-> a, b |-> b, pay |-> pay]}
    /\ UNCHANGED <<doms, props, retired, disabled, pend, stale, fired, keeps, running, dead, stable, saved>>
Clear(p) ==
    /\ running = p
    /\ armed' = {w \in armed : w.p # p} /\ stale' = {w \in stale : w.p # p} /\ fired' = {w \in fired : w.p # p}
    /\ UNCHANGED <<doms, props, retired, disabled, pend, keeps, running, dead, stable, saved>>
Watching(p, v) == \E w \in armed \cup fired : w.p = p /\ w.t[1] = v
MayWatch(p, v) == Watching(p, v) \/ \E w \in stale : w.p = p /\ w.t[1] = v

Keep(p, k, x) ==
    /\ running = p
    /\ keeps' = {e \in keeps : ~(e[1] = p /\ e[2] = k)} \cup {<<p, k, x>>}
    /\ UNCHANGED <<doms, props, retired, disabled, pend, armed, stale, fired, running, dead, stable, saved>>
KeptFor(p, k) == LET es == {e \in keeps : e[1] = p /\ e[2] = k} IN IF es = {} THEN 0 ELSE (CHOOSE e \in es : TRUE)[3]

Finish(p, how) ==
    /\ running = p /\ ~dead
    /\ running' = 0
    /\ disabled' = IF how = "disable" THEN disabled \cup {p} ELSE disabled
    /\ pend' = IF how = "idempotent" /\ ~props[p].aliased THEN pend \ {p} ELSE pend
    /\ UNCHANGED <<doms, props, retired, armed, stale, fired, keeps, dead, stable, saved>>

\* Nobody who can still be run is owed anything.
Settled == pend \cap Enabled = {} /\ {w \in fired : w.p \in Enabled} = {}

Stop ==
    /\ IF dead THEN TRUE ELSE running = 0
    /\ running' = 0 /\ pend' = {} /\ fired' = {} /\ stable' = ~dead
    /\ UNCHANGED <<doms, props, retired, disabled, armed, stale, keeps, dead, saved>>

Save ==
    /\ running = 0 /\ ~dead
    /\ saved' = Append(saved, [doms |-> doms, disabled |-> disabled, armed |-> armed, stale |-> stale, keeps |-> keeps])
    /\ UNCHANGED <<doms, props, retired, disabled, pend, armed, stale, fired, keeps, running, dead, stable>>
Return(k) ==
    /\ running = 0 /\ k \in DOMAIN saved
    /\ doms' = saved[k].doms /\ disabled' = saved[k].disabled /\ armed' = saved[k].armed /\ stale' = saved[k].stale /\ keeps' = saved[k].keeps
    /\ saved' = SubSeq(saved, 1, k - 1)
    /\ pend' = {} /\ fired' = {} /\ dead' = FALSE /\ stable' = TRUE
    /\ UNCHANGED <<props, retired, running>>
=============================================================================
