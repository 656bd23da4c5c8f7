--------------------------- MODULE PropagationModel ---------------------------
(* Every short life of the engine over two variables and three propagators:   *)
(* one that wants every change, one that wants bounds, and one that waits for *)
(* conditions. What each saw when it was last run is kept besides, and when   *)
(* the engine says it is stable nobody may have been shown something else.    *)
EXTENDS Propagation, TLC

CONSTANTS Saves, Arms, Few

VARIABLES seen, \* what each propagator last saw
          seens, \* that, at every point to return to
          made  \* watches made so far

mvars == <<engine, seen, seens, made>>

X == <<1, 1, 0>>
NX == <<1, -1, 1>>
Y == <<2, 1, 0>>
Term == {X, NX, Y}
Cond == IF Few THEN {<<"ne", 1>>, <<"ge", 1>>} ELSE {<<"ne", 1>>, <<"ge", 1>>, <<"lt", 2>>, <<"eq", 0>>}

P(ch, bo, sc) == [cid |-> 1, change |-> ch, bounds |-> bo, inst |-> {}, scope |-> sc, aliased |-> FALSE]

Init ==
    /\ doms = <<0..2, 0..1>>
    /\ props = <<P({1, 2}, {}, {1, 2}), P({}, {1}, {1}), P({}, {}, {1, 2})>>
    /\ retired = {} /\ disabled = {} /\ pend = {} /\ armed = {} /\ stale = {} /\ fired = {} /\ keeps = {}
    /\ running = 0 /\ dead = FALSE /\ stable = FALSE /\ saved = <<>>
    /\ seen = [p \in 1..3 |-> <<{}, {}>>] /\ seens = <<>> /\ made = 0

MStart == ~stable /\ saved = <<>> /\ seen[1] = <<{}, {}>> /\ pend = {} /\ StartAll /\ UNCHANGED <<seen, seens, made>>
\* What is owed is handed over when a propagator is run, or later.
MRun == \E p \in pend \cup {w.p : w \in fired} : \E late \in BOOLEAN :
            /\ Run(p, IF late THEN {} ELSE Owed(p))
            /\ seen' = [seen EXCEPT ![p] = doms]
            /\ UNCHANGED <<seens, made>>
MInfer == running # 0 /\ \E t \in Term, c \in Cond : Impose(t, c[1], c[2], 0, TRUE) /\ (doms' # doms \/ dead' # dead) /\ UNCHANGED <<seen, seens, made>>
MArm == /\ running = 3 /\ made < Arms
        /\ \E t \in Term, c \in Cond :
            /\ \E x \in Values(t) : Allows(c[1], c[2], 0, x)
            /\ \E x \in Values(t) : ~Allows(c[1], c[2], 0, x)
            /\ Arm(3, t, c[1], c[2], 0, made + 1)
        /\ made' = made + 1
        /\ UNCHANGED <<seen, seens>>
MFinish == \E how \in {"enable", "idempotent", "disable"} :
            /\ running # 0 /\ Finish(running, how)
            /\ seen' = IF how = "idempotent" THEN [seen EXCEPT ![running] = doms] ELSE seen
            /\ UNCHANGED <<seens, made>>
MStop == (dead \/ Settled) /\ ~stable /\ seen[1] # <<{}, {}>> /\ Stop /\ UNCHANGED <<seen, seens, made>>
MSave == stable /\ Len(saved) < Saves /\ Save /\ seens' = Append(seens, seen) /\ UNCHANGED <<seen, made>>
MDecide == stable /\ saved # <<>> /\ \E t \in Term, c \in Cond : Impose(t, c[1], c[2], 0, TRUE) /\ doms' # doms /\ UNCHANGED <<seen, seens, made>>
MReturn == (dead \/ stable) /\ \E k \in DOMAIN saved : Return(k) /\ seen' = seens[k] /\ seens' = SubSeq(seens, 1, k - 1) /\ UNCHANGED made

Next == MStart \/ MRun \/ MInfer \/ MArm \/ MFinish \/ MStop \/ MSave \/ MDecide \/ MReturn
Spec == Init /\ [][Next]_mvars

Ends(S) == IF S = {} THEN <<>> ELSE <<Min(S), Max(S)>>
NothingMissed ==
    stable => \A p \in Enabled :
        /\ \A v \in props[p].change : seen[p][v] = doms[v]
        /\ \A v \in props[p].bounds : Ends(seen[p][v]) = Ends(doms[v])
\* A condition watched for is not certain, unless it has been handed over.
NothingCertain == stable => \A w \in armed : ~Certain(doms, w)
Sane ==
    /\ \A w \in armed : w.t[1] \in Scope(w.p)
    /\ \A v \in DOMAIN doms : doms[v] # {}
\* Going back is going back to what was.
Restored == [][\A k \in DOMAIN saved : MReturn /\ Len(saved') = k - 1 => doms' = saved[k].doms /\ armed' = saved[k].armed]_mvars
===============================================================================
