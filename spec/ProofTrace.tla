----------------------------- MODULE ProofTrace -----------------------------
(* Replays recorded proof files as a transition system over the proof        *)
(* format's own state: the constraints derived so far, by number and label,  *)
(* the solutions logged, and the objective bound they imply. A step is a     *)
(* transition only if what it claims follows by the rule it names.           *)
EXTENDS TraceBase, PseudoBoolean, Semantics, Rejections

VARIABLES
    P,      \* the proof: db, occ, eager, last, labels, core
    M,      \* the model: names, objective, preserved, posted model
    sols,   \* solutions logged, as sets of literals
    ctx,    \* the redundancy subproof under way
    fin     \* the conclusion reached

vars == <<l, P, M, sols, ctx, fin>>

None == [none |-> TRUE]
Gone == Make(<<>>, 0)

EmptyProof(n) == [n |-> n, db |-> <<>>, occ |-> [i \in 1..(2 * n) |-> {}], eager |-> {}, last |-> 0,
                  labels |-> <<>>, core |-> {}, gone |-> {}]

WithLabel(p, lab, id) == IF lab = "" THEN p ELSE [p EXCEPT !.labels = (lab :> id) @@ @]

Insert(p, c, lab) ==
    LET id == p.last + 1
        here == {Slot(p.n, x) : x \in LitsOf(c)}
        q == [p EXCEPT !.db = Append(@, c),
                       !.last = id,
                       !.eager = IF Eager(c) THEN @ \cup {id} ELSE @,
                       !.occ = TLCEval([i \in 1..Len(p.occ) |-> IF i \in here THEN p.occ[i] \cup {id} ELSE p.occ[i]])]
    IN  TLCEval(WithLabel(q, lab, id))

Drop(p, ids) ==
    TLCEval([p EXCEPT !.db = [i \in 1..Len(@) |-> IF i \in ids THEN Gone ELSE @[i]],
                      !.eager = @ \ ids, !.gone = @ \cup ids])

\* A reference: relative to the last number given out, absolute, or a label.
Resolve(p, r) ==
    IF r[1] = "label" THEN IF r[2] \in DOMAIN p.labels THEN p.labels[r[2]] ELSE 0
    ELSE IF r[2] < 0 THEN p.last + 1 + r[2] ELSE r[2]
Live(p, id) == id \in 1..p.last /\ id \notin p.gone

UP(p, ex, rho, first) == Propagate(p.n, p.db, p.occ, ex, rho, first)

Rup(p, c) == UP(p, {Negation(c)}, {}, p.eager) = Conflict

\* With hints only the constraints named take part, besides the negated goal.
RupHinted(p, c, ids) ==
    LET q == Drop(p, {i \in 1..p.last : i \notin ids})
    IN  UP(q, {Negation(c)}, {}, q.eager) = Conflict

----------------------------------------------------------------------------
(* Some constraints say plainly that they cannot log proofs: two where an    *)
(* output is a view or a constant, three where a rule is justified over one, *)
(* and the two reified comparisons in the negated forms no file can state.   *)
Plain(t) == t[1] # 0 /\ t[2] = 1 /\ t[3] = 0
NotAllPlain(ts) == \E i \in 1..Len(ts) : ~Plain(ts[i])
Unloggable(c) ==
    CASE c.k = "binpackingload" -> NotAllPlain(c.loads)
      [] c.k = "knapsack" -> NotAllPlain(c.ts)
      [] c.k = "gcc" -> NotAllPlain(c.xs) \/ NotAllPlain(c.ys)
      [] c.k = "disjunctive" -> NotAllPlain(c.starts) \/ NotAllPlain(c.lengths)
      [] c.k = "disjunctive2d" -> NotAllPlain(c.xs) \/ NotAllPlain(c.ys) \/ NotAllPlain(c.ws) \/ NotAllPlain(c.hs)
      [] OTHER -> FALSE
Unwritable(c) == c.k \in {"linle", "compare"} /\ c.r.m \in {"mustnot", "notif"}

\* What known findings raise instead of finishing the proof.
KnownSites ==
    {r \in {<<"EDGE_VIEW", "disjunctive", "unexpected problem: disjunctive edge">>,
            <<"ELASTIC", "cumulative", "unexpected problem: cumulative elastic overload: the pol says ">>,
            <<"ZERO_WIDTH", "cumulative", "unexpected problem: introduce_bits_of does not support a zero">>} :
        ("KNOWN_C10_" \o r[1]) \in DOMAIN IOEnv}

\* A global cardinality over variables that are also its counts may read what
\* its own inferences have changed, and so justify them from the wrong bounds.
CountsAmongValues(c) ==
    /\ c.k = "gcc"
    /\ \E i \in 1..Len(c.xs), j \in 1..Len(c.ys) : c.xs[i][1] # 0 /\ c.xs[i][1] = c.ys[j][1]
KnownUnjustified(e) ==
    IF "KNOWN_C10_GCC_COUNTS" \in DOMAIN IOEnv /\ \E i \in 1..Len(e.cons) : CountsAmongValues(e.cons[i])
    THEN PrintT(<<"@@KNOWN", "C10_GCC_COUNTS">>) ELSE FALSE

Refused(e) ==
    IF e.thrown = "unimplemented" THEN \E i \in 1..Len(e.cons) : Unloggable(e.cons[i])
    ELSE IF e.site = "unexpected problem: Unexpected reification type in s_expr" THEN \E i \in 1..Len(e.cons) : Unwritable(e.cons[i])
    ELSE IF \E r \in KnownSites : r[3] = e.site /\ \E i \in 1..Len(e.cons) : e.cons[i].k = r[2]
    THEN PrintT(<<"@@KNOWN", "C10_" \o (CHOOSE r \in KnownSites : r[3] = e.site)[1]>>)
    ELSE FALSE

\* What a proof leaves to be justified later: what was asked for in code, or
\* else what the environment asks for, in either case of letters, if that is
\* anything at all.
LevelNames == << <<111, 102, 102>>, <<100, 101, 102, 105, 110, 105, 116, 105, 111, 110, 115>>, <<108, 105, 110, 107, 115>>,
                 <<105, 110, 102, 101, 114, 101, 110, 99, 101, 115>>, <<98, 97, 99, 107, 116, 114, 97, 99, 107, 105, 110, 103>> >>
FromEnvironment(text) ==
    LET lower == [i \in 1..Len(text) |-> IF text[i] \in 65..90 THEN text[i] + 32 ELSE text[i]]
        meant == {k \in 1..5 : lower = LevelNames[k] \/ text = <<47 + k>>}
    IN  IF meant = {} THEN 0 ELSE (CHOOSE k \in meant : TRUE) - 1
LevelOf(e) == IF e.asked >= 0 THEN e.asked ELSE FromEnvironment(e.surroundings)
Level == M.level

Begin ==
    /\ IsEvent("begin")
    /\ LET bad == \E i \in 1..Len(Ev.cons) : Rejected(Ev.cons[i], Ev.vars)
       IN  Holds("a model was refused", IF Ev.thrown = (IF bad THEN "invalid" ELSE "no") THEN TRUE ELSE Refused(Ev))
    /\ Check("the file could be read", Ev.bad, "")
    /\ M' = [begin |-> Ev, level |-> LevelOf(Ev)]
    /\ P' = None /\ sols' = <<>> /\ ctx' = None /\ fin' = None

----------------------------------------------------------------------------
(* The variables map: what the names in the files stand for. A model         *)
(* variable or a variable of the proof's own has bits of given weights, and  *)
(* conditions on it are variables of their own.                              *)

Prefix(r) == IF r.cpt = "intvar" THEN "i[" \o r.name \o "]" ELSE "p[" \o ToString(r.cpid) \o "_" \o r.name \o "]"

\* What a name is to be when names are to be readable, for a model's variable.
Readable(r) ==
    CASE r.type = "intvarbit" -> r.key = Prefix(r) \o "[b" \o ToString(r.k) \o "]"
      [] r.type = "intvarnegbit" -> r.key = Prefix(r) \o "[sign]"
      [] r.type = "condition" -> r.key = Prefix(r) \o (IF r.op = ">=" THEN "[ge" ELSE IF r.op = "=" THEN "[eq" ELSE "[in") \o ToString(r.k)
                                         \o (IF r.op = "in" THEN "_" \o ToString(r.hi) \o "]" ELSE "]")
      [] OTHER -> TRUE

Whose(r) == <<r.cpt, r.cpid>>

\* The value of a variable, as weighted bits.
BitsOf(map, index, who) ==
    LET rows == {i \in 1..Len(map) : map[i].type \in {"intvarbit", "intvarnegbit"} /\ Whose(map[i]) = who /\ map[i].key \in DOMAIN index}
    IN  SetToSeq({<<IF map[i].type = "intvarbit" THEN 2^(map[i].k) ELSE map[i].k, index[map[i].key]>> : i \in rows})

\* "If literal x then value >= k", and "if not x then value < k".
Scale(bits, m) == [i \in 1..Len(bits) |-> <<m * bits[i][1], bits[i][2]>>]
Lowest(bits) == FoldLeft(LAMBDA a, p : IF p[1] < 0 THEN a + p[1] ELSE a, 0, bits)
IfThen(x, bits, k) == Norm(Append(bits, <<MaxOf(0, k - Lowest(bits)), -x>>), k)
Iff(x, bits, k) == <<IfThen(x, bits, k), IfThen(-x, Scale(bits, -1), 1 - k)>>

\* The meaning of a condition, with two fresh variables where it needs them.
MeaningOf(r, x, bits, fresh) ==
    IF r.op = ">=" THEN Iff(x, bits, r.k)
    ELSE LET hi == IF r.op = "in" THEN r.hi ELSE r.k
         IN  Iff(fresh, bits, r.k) \o Iff(fresh + 1, bits, hi + 1)
             \o <<Norm(<< <<1, fresh>>, <<1, -x>> >>, 1), Norm(<< <<1, -(fresh + 1)>>, <<1, -x>> >>, 1),
                   Norm(<< <<1, -fresh>>, <<1, fresh + 1>>, <<1, x>> >>, 1)>>

Meanings(map, index, n) ==
    LET rows == SetToSeq({i \in 1..Len(map) : map[i].type = "condition" /\ map[i].key \in DOMAIN index})
        One(j) == LET r == map[rows[j]] IN TLCEval([x |-> index[r.key], cs |-> MeaningOf(r, index[r.key], BitsOf(map, index, Whose(r)), n + 2 * j - 1)])
    IN  TLCEval([j \in 1..Len(rows) |-> One(j)])

Model ==
    /\ IsEvent("model")
    /\ LET conds == Cardinality({i \in 1..Len(Ev.map) : Ev.map[i].type = "condition"})
           spare == IF Level > 0 THEN 2 * conds ELSE 0
           load == FoldLeft(LAMBDA p, c : Insert(p, Norm(c.t, c.d), c.lab), EmptyProof(Len(Ev.names) + spare), Ev.cons)
       IN  /\ P' = TLCEval([load EXCEPT !.core = 1..load.last])
           /\ LET labs == SelectSeq([i \in 1..Len(Ev.cons) |-> Ev.cons[i].lab], LAMBDA x : x # "")
              IN  Check("labels are distinct", Cardinality(ToSet(labs)), Len(labs))
    /\ LET index == TLCEval([i \in ToSet(Ev.names) |-> CHOOSE j \in 1..Len(Ev.names) : Ev.names[j] = i])
       IN  M' = [begin |-> M.begin, level |-> M.level, index |-> index,
                 bits |-> TLCEval([i \in 1..Len(M.begin.vars) |->
                              LET rows == {j \in 1..Len(Ev.map) : Ev.map[j].cpt = "intvar" /\ Ev.map[j].name = "v" \o ToString(i)}
                              IN  IF rows = {} THEN <<>> ELSE BitsOf(Ev.map, index, Whose(Ev.map[CHOOSE j \in rows : TRUE]))]),
                 meanings |-> IF Level > 0 THEN Meanings(Ev.map, index, Len(Ev.names)) ELSE <<>>,
                 posted |-> TLCEval([i \in {Ev.posted[j][1] : j \in 1..Len(Ev.posted)} |->
                                LET j == CHOOSE j \in 1..Len(Ev.posted) : Ev.posted[j][1] = i IN Ev.posted[j][2]]),
                 hasobj |-> Ev.hasobj, objective |-> Ev.objective, haspres |-> Ev.haspres, preserved |-> ToSet(Ev.preserved)]
    /\ LET keys == {Ev.map[i].key : i \in 1..Len(Ev.map)}
           users == {"v" \o ToString(i) : i \in 1..Len(M.begin.vars)}
       IN  /\ Check("every name is in the variables map once", Cardinality(keys), Len(Ev.map))
           /\ Check("names that are not in the variables map", SelectSeq(Ev.names, LAMBDA x : x \notin keys), <<>>)
           /\ IF M.begin.verbose
              THEN Check("names that do not say what they stand for", SelectSeq(Ev.map, LAMBDA r : r.name \in users /\ ~Readable(r)), <<>>)
              ELSE TRUE
    /\ Check("a model to be optimised has an objective, and no other", Ev.hasobj, M.begin.objective >= 0)
    /\ UNCHANGED <<sols, ctx, fin>>

Header == IsEvent("header") /\ UNCHANGED <<P, M, sols, ctx, fin>>

\* Follows from what there is and from what the conditions on variables mean,
\* whether or not they have been defined.
Entailed(c) ==
    LET own == {j \in 1..Len(M.meanings) : \E x \in LitsOf(c) : Abs(x) = M.meanings[j].x}
        near == UNION {ToSet(M.meanings[j].cs) : j \in own}
    IN  \/ UP(P, {Negation(c)} \cup near, {}, P.eager) = Conflict
        \/ LET all == <<Negation(c)>> \o FlattenSeq([j \in 1..Len(M.meanings) |-> M.meanings[j].cs])
               Q == FoldLeft(LAMBDA p, k : Insert(p, k, ""), P, all)
           IN  ~Extends(Q.n, Q.db, Q.occ, 1..Q.last, UP(Q, {}, {}, Q.eager))

\* Where definitions are left to a later tool, so is what relies on them.
Derivable(c) == IF Level < 2 THEN Rup(P, c) ELSE Rup(P, c) \/ Entailed(c)

RupStep ==
    /\ IsEvent("rup")
    /\ LET c == Norm(Ev.t, Ev.d)
           hs == {Resolve(P, Ev.hints[i]) : i \in 1..Len(Ev.hints)}
       IN  /\ Holds("hints name live constraints", \A h \in hs : Live(P, h))
           /\ Holds("rup", IF (IF Ev.hinted /\ Level < 2 THEN RupHinted(P, c, hs) ELSE Derivable(c)) THEN TRUE ELSE KnownUnjustified(M.begin))
           /\ P' = Insert(P, c, Ev.lab)
    /\ UNCHANGED <<M, sols, ctx, fin>>

\* Implied by one constraint, the one named if any is.
Implication ==
    /\ IsEvent("implied")
    /\ LET c == Norm(Ev.t, Ev.d)
           from == IF Ev.hinted THEN {Resolve(P, Ev.hints[i]) : i \in 1..Len(Ev.hints)} ELSE {i \in 1..P.last : Live(P, i)}
       IN  /\ Holds("implication from live constraints", \A h \in from : Live(P, h))
           /\ Holds("implied", \E i \in from : ImpliesC(P.db[i], c))
           /\ P' = Insert(P, c, Ev.lab)
    /\ UNCHANGED <<M, sols, ctx, fin>>

\* Reverse Polish: a stack of constraints, starting empty and ending with one.
Bad == << [bad |-> TRUE] >>
PolOp(st, op) ==
    LET n == Len(st)

    IN  IF st = Bad THEN st
        ELSE IF op[1] \in {"id", "label"}
             THEN LET id == Resolve(P, op) IN IF Live(P, id) THEN Append(st, Sparse(P.db[id])) ELSE Bad
        ELSE IF op[1] = "lit" THEN Append(st, LitC(op[2]))
        ELSE IF op[1] = "+" THEN IF n >= 2 THEN Append(SubSeq(st, 1, n - 2), AddC(st[n - 1], st[n])) ELSE Bad
        ELSE IF n = 0 THEN Bad
        ELSE IF op[1] = "*" THEN IF op[2] >= 0 THEN [st EXCEPT ![n] = MulC(@, op[2])] ELSE Bad
        ELSE IF op[1] = "d" THEN IF op[2] > 0 THEN [st EXCEPT ![n] = DivC(@, op[2])] ELSE Bad
        ELSE IF op[1] = "s" THEN [st EXCEPT ![n] = SatC(@)]
        ELSE IF op[1] = "w" THEN [st EXCEPT ![n] = WeakenC(@, Abs(op[2]))]
        ELSE Bad

\* The two highest levels derive nothing, besides what presolvers add.
PolStep ==
    /\ IsEvent("pol")
    /\ LET st == FoldLeft(PolOp, <<>>, Ev.ops)
       IN  /\ Holds("pol names live constraints and leaves one on the stack", Len(st) = 1 /\ st # Bad)
           /\ Holds("this level is to justify what it says", Level < 3 \/ M.begin.presolvers # <<>>)
           /\ P' = Insert(P, Dense(st[1]), Ev.lab)
    /\ UNCHANGED <<M, sols, ctx, fin>>

----------------------------------------------------------------------------
(* Redundance: C may be added if every constraint, C itself and the          *)
(* objective, once substituted by the witness, follow from the constraints   *)
(* and the negation of C.                                                    *)

WitnessVars(e) == {Abs(e.wc[i][1]) : i \in 1..Len(e.wc)} \cup {Abs(e.wl[i][1]) : i \in 1..Len(e.wl)}

Touched(p, e) == {i \in UNION {p.occ[v] \cup p.occ[p.n + v] : v \in WitnessVars(e)} : Live(p, i)}

ObjectiveGoal(e) == \* objective after substitution <= objective
    LET o == M.objective
        plain == [i \in 1..Len(o) |-> <<o[i][1], o[i][2]>>]
        moved == [i \in 1..Len(o) |-> <<-o[i][1], o[i][2]>>]
        \* sum(o) - sum(o|w) >= 0, with the substituted part carried by fresh terms
        One(p) == LET v == Abs(p[2])
                      C == {i \in 1..Len(e.wc) : Abs(e.wc[i][1]) = v}
                      L == {i \in 1..Len(e.wl) : Abs(e.wl[i][1]) = v}
                  IN  IF C # {} THEN LET w == e.wc[CHOOSE i \in C : TRUE]
                                     IN  [t |-> <<>>, c |-> IF (Sgn(w[1]) * Sgn(p[2]) = 1) = (w[2] = 1) THEN p[1] ELSE 0]
                      ELSE IF L # {} THEN LET w == e.wl[CHOOSE i \in L : TRUE]
                                          IN  [t |-> << <<p[1], Sgn(w[1]) * Sgn(p[2]) * w[2]>> >>, c |-> 0]
                      ELSE [t |-> <<p>>, c |-> 0]
        r == FoldLeft(LAMBDA acc, p : LET x == One(p) IN [t |-> acc.t \o x.t, c |-> acc.c + x.c], [t |-> <<>>, c |-> 0], moved)
    IN  Norm(plain \o r.t, -r.c)

Auto(p, ex, g) ==
    \/ g.d <= 0
    \/ UP(p, ex \cup {Negation(g)}, {}, p.eager) = Conflict
    \/ \E c \in ex : ImpliesC(c, g)
    \/ \E i \in 1..p.last : Live(p, i) /\ ImpliesC(p.db[i], g)

\* The goals not proved by hand, each to be found automatically.
Remaining(p, e, c, ex, done) ==
    /\ Holds("the witness leaves the preserved variables alone", WitnessVars(e) \cap {Abs(x) : x \in M.preserved} = {})
    /\ Holds("the new constraint survives its own witness",
           <<"new", 1>> \in done \/ Auto(p, ex, Substitute(c, e.wc, e.wl)))
    /\ Holds("every other constraint survives the witness",
           \A i \in Touched(p, e) : i \in {d[2] : d \in {x \in done : x[1] = "id"}} \/ Auto(p, ex, Substitute(p.db[i], e.wc, e.wl)))
    /\ Holds("the objective does not get worse",
           (\A i \in 1..Len(M.objective) : Abs(M.objective[i][2]) \notin WitnessVars(e)) \/ Auto(p, ex, ObjectiveGoal(e)))

RedStep ==
    /\ IsEvent("red")
    /\ Holds("no redundancy step inside another", ctx = None)
    /\ LET c == Norm(Ev.t, Ev.d)
       IN  IF Ev.sub
           THEN /\ ctx' = [e |-> Ev, c |-> c, base |-> P, done |-> {}, goal |-> None, outer |-> None]
                /\ P' = Insert(P, Negation(c), "")
           ELSE /\ Remaining(P, Ev, c, {Negation(c)}, {})
                /\ P' = Insert(P, c, Ev.lab)
                /\ UNCHANGED ctx
    /\ UNCHANGED <<M, sols, fin>>

Goal ==
    /\ IsEvent("goal")
    /\ Holds("a goal belongs to a subproof", ctx # None /\ ctx.goal = None)
    /\ LET key == IF Ev.goal[1] = "new" THEN <<"new", Ev.goal[2]>> ELSE <<"id", Resolve(P, Ev.goal)>>
           g == IF key[1] = "new" THEN Substitute(ctx.c, ctx.e.wc, ctx.e.wl) ELSE Substitute(P.db[key[2]], ctx.e.wc, ctx.e.wl)
       IN  /\ Holds("the goal is one there is", IF key[1] = "new" THEN key[2] = 1 ELSE key[2] \in Touched(ctx.base, ctx.e))
           /\ ctx' = [ctx EXCEPT !.goal = key, !.outer = P]
           /\ P' = Insert(P, Negation(g), "")
    /\ UNCHANGED <<M, sols, fin>>

Qed ==
    /\ IsEvent("qed")
    /\ Holds("qed ends something", ctx # None)
    /\ IF ctx.goal # None
       THEN /\ Holds("the goal was proved", UP(P, {}, {}, P.eager) = Conflict)
            /\ P' = Drop(P, (ctx.outer.last + 1)..P.last)
            /\ ctx' = [ctx EXCEPT !.done = @ \cup {ctx.goal}, !.goal = None, !.outer = None]
       ELSE /\ Remaining(ctx.base, ctx.e, ctx.c, {Negation(ctx.c)}, ctx.done)
            /\ P' = Insert(Drop(P, (ctx.base.last + 1)..P.last), ctx.c, ctx.e.lab)
            /\ ctx' = None
    /\ UNCHANGED <<M, sols, fin>>

----------------------------------------------------------------------------
(* An assertion is a step a later tool is to justify. It has to be true, and *)
(* when annotated it has to lead that tool to what it follows from: the rule *)
(* and the posted constraint, or the part of the search, it comes from.      *)

\* Rules that belong to no one constraint.
General == {"initial_bound", "bound_link", "backtrack", "solx_block", "soli_improve"}

RuleNames(kind) ==
    CASE kind \in {"domain", "in"} -> {"in"}
      [] kind = "abs" -> {"abs"}
      [] kind \in {"alldiff", "symalldiff"} -> {"all_different"}
      [] kind = "alldiffexcept" -> {"all_different_except", "all_different"}
      [] kind = "allequal" -> {"all_equal"}
      [] kind = "among" -> {"among"}
      [] kind = "and" -> {"and"}
      [] kind = "or" -> {"or"}
      [] kind = "argsort" -> {"arg_sort", "sort", "all_different"}
      [] kind = "sort" -> {"sort"}
      [] kind = "atmostone" -> {"at_most_one"}
      [] kind \in {"binpacking", "binpackingload", "binpackingcap"} -> {"binpacking"}
      [] kind = "circuit" -> {"circuit", "all_different"}
      [] kind = "compare" -> {"comparison"}
      [] kind = "count" -> {"count"}
      [] kind = "cumulative" -> {"cumulative"}
      [] kind = "disjunctive" -> {"disjunctive"}
      [] kind = "disjunctive2d" -> {"disjunctive_2d"}
      [] kind = "divide" -> {"divide", "linear_equality"}
      [] kind = "modulus" -> {"modulus", "linear_equality"}
      [] kind = "multiply" -> {"multiply", "linear_equality"}
      [] kind \in {"element", "element2d", "elementconst", "element2dconst"} -> {"element", "equals"}
      [] kind \in {"equals", "notequals"} -> {"equals"}
      [] kind = "gcc" -> {"global_cardinality"}
      [] kind = "increasing" -> {"increasing"}
      [] kind = "inverse" -> {"inverse", "all_different"}
      [] kind = "knapsack" -> {"knapsack", "knapsack_upfront"}
      [] kind = "lex" -> {"lex"}
      [] kind = "lineq" -> {"linear_equality", "linear_not_equals"}
      [] kind = "linle" -> {"linear_inequality"}
      [] kind = "mdd" -> {"mdd"}
      [] kind \in {"min", "max", "minmax", "arraymin", "arraymax", "array"} -> {"min_max"}
      [] kind = "minus" -> {"minus"}
      [] kind = "plus" -> {"plus"}
      [] kind = "negtable" -> {"negative_table"}
      [] kind = "nvalue" -> {"nvalue"}
      [] kind = "parity" -> {"parity"}
      [] kind = "power" -> {"table", "power", "multiply", "linear_equality"}
      [] kind \in {"regular", "regex"} -> {"regular", "regular_legacy"}
      [] kind \in {"seqprecede", "valueprecede"} -> {"value_precede"}
      [] kind = "table" -> {"table"}
      [] OTHER -> {"ANY"}

SubRules(rule) ==
    CASE rule = "all_different" -> {"hall"}
      [] rule = "cumulative" -> {"overload", "makespan"}
      [] rule = "equals" -> {"no_overlap"}
      [] rule = "lex" -> {"unsat_scaffold"}
      [] rule \in {"linear_equality", "linear_inequality", "linear_not_equals"} -> {"cond"}
      [] OTHER -> {}

\* What presolvers install.
Installed == {"cumulative", "disjunctive", "linear_inequality", "table", "autotable", "difference"}

AnnotationIsUseful(e) ==
    IF ~e.annotated THEN TRUE
    ELSE IF e.hint \in General THEN e.fields = <<>>
    ELSE /\ Len(e.fields) = 1
         /\ LET f == e.fields[1]
            IN  /\ Len(f) \in {1, 2}
                /\ f[1][1] = "constraint_id"
                \* what a presolver installs has no posted constraint to name
                /\ f[1][2] \in DOMAIN M.posted \/ (f[1][2] = "unnamed" /\ M.begin.presolvers # <<>>)
                /\ LET rules == IF f[1][2] \in DOMAIN M.posted THEN RuleNames(M.posted[f[1][2]]) ELSE {e.hint} \cap Installed IN e.hint \in rules \/ "ANY" \in rules
                /\ Len(f) = 2 => f[2][1] = "subhint" /\ f[2][2] \in SubRules(e.hint)

\* Which assertions each level is to make, for those that say what they are.
AtLevel(e) ==
    IF ~e.annotated THEN Level > 0
    ELSE IF e.hint = "backtrack" THEN Level >= 3
    ELSE IF e.hint = "bound_link" THEN Level = 2
    ELSE IF e.hint \in General THEN Level > 0
    ELSE Level \in 1..3

Assertion ==
    /\ IsEvent("assert")
    /\ LET c == Norm(Ev.t, Ev.d)
       IN  /\ Holds("an assertion is true", Entailed(c))
           /\ Holds("an assertion says what it follows from", AnnotationIsUseful(Ev))
           /\ Holds("it names live constraints", \A i \in 1..Len(Ev.from) : Ev.from[i] \in DOMAIN P.labels /\ Live(P, P.labels[Ev.from[i]]))
           /\ Holds("this level is to assert it", AtLevel(Ev))
           /\ P' = Insert(P, c, Ev.lab)
    /\ UNCHANGED <<M, sols, ctx, fin>>

----------------------------------------------------------------------------
Delete ==
    /\ IsEvent("delete")
    /\ LET ids == {Resolve(P, Ev.refs[i]) : i \in 1..Len(Ev.refs)}
       IN  /\ Holds("only live constraints are deleted", \A i \in ids : Live(P, i))
           /\ Holds("only derived constraints are deleted", ids \cap P.core = {})
           /\ P' = Drop(P, ids)
    /\ UNCHANGED <<M, sols, ctx, fin>>

DeleteRange ==
    /\ IsEvent("deleterange")
    /\ LET a == Resolve(P, Ev.from)
           b == Resolve(P, Ev.to) - 1
           ids == {i \in a..b : Live(P, i)}
       IN  /\ Holds("a range of constraints there are", a \in 1..P.last /\ b \in 0..P.last)
           /\ Holds("only derived constraints are deleted", ids \cap P.core = {})
           /\ P' = Drop(P, ids)
    /\ UNCHANGED <<M, sols, ctx, fin>>

\* What an assignment makes of the objective.
ObjectiveUnder(rho) == FoldLeft(LAMBDA a, p : IF p[2] \in rho THEN a + p[1] ELSE a, 0, M.objective)
ObjectiveBelow(k) == Norm([i \in 1..Len(M.objective) |-> <<-M.objective[i][1], M.objective[i][2]>>], 1 - k)
ObjectiveAtLeast(k) == Norm(M.objective, k)

\* A model variable's value, read from its bits.
Decode(i, rho) == FoldLeft(LAMBDA a, p : IF p[2] \in rho THEN a + p[1] ELSE a, 0, M.bits[i])
Decoded(rho) == [i \in 1..Len(M.begin.vars) |-> Decode(i, rho)]

Solution(kind) ==
    /\ IsEvent(kind)
    /\ Holds("no solution inside a subproof", ctx = None)
    /\ LET rho == UP(P, {}, ToSet(Ev.lits), TLCEval(P.eager \cup UNION {P.occ[Slot(P.n, -Ev.lits[i])] : i \in 1..Len(Ev.lits)}))
       IN  /\ Holds("the solution is consistent", rho # Conflict /\ \A x \in rho : -x \notin rho)
           /\ Holds("the solution satisfies every constraint", Extends(P.n, P.db, P.occ, 1..P.last, rho))
           /\ Holds("the solution decides what is preserved", \A x \in M.preserved : x \in rho \/ -x \in rho)
           /\ Holds("the solution decides the objective", \A i \in 1..Len(M.objective) : M.objective[i][2] \in rho \/ -M.objective[i][2] \in rho)
           /\ sols' = Append(sols, [lits |-> rho, vals |-> TLCEval(Decoded(rho))])
           /\ Check("the kind of solution line", kind, IF M.hasobj THEN "soli" ELSE "solx")
           /\ LET c == IF M.hasobj THEN ObjectiveBelow(ObjectiveUnder(rho))
                       ELSE LET ps == IF M.haspres THEN M.preserved ELSE 1..P.n
                            IN  Norm(SetToSeq({<<1, IF v \in rho THEN -v ELSE v>> : v \in ps}), 1)
                  Q == Insert(P, c, "")
              IN  P' = [Q EXCEPT !.core = @ \cup {Q.last}]
    /\ UNCHANGED <<M, ctx, fin>>

Equal ==
    /\ IsEvent("equal")
    /\ LET id == Resolve(P, Ev.ref)
       IN  Holds("the constraint is the one claimed", Live(P, id) /\ SameC(P.db[id], Norm(Ev.t, Ev.d)))
    /\ UNCHANGED <<P, M, sols, ctx, fin>>

Output == IsEvent("output") /\ Holds("no subproof is left open", ctx = None) /\ UNCHANGED <<P, M, sols, ctx, fin>>

Best == LET vs == {ObjectiveUnder(sols[i].lits) : i \in 1..Len(sols)} IN CHOOSE x \in vs : \A y \in vs : x <= y

Conclusion ==
    /\ IsEvent("conclusion")
    /\ fin' = [kind |-> Ev.kind, args |-> Ev.args]
    /\ LET refs == {Resolve(P, Ev.ref[i]) : i \in 1..Len(Ev.ref)}
           falsum == refs # {} /\ \A r \in refs : Live(P, r) /\ Contradictory(P.db[r])
       IN  IF Ev.kind = "UNSAT" THEN /\ Holds("a contradiction was derived", falsum)
                                     /\ Holds("no solution was logged", sols = <<>>)
           ELSE IF Ev.kind = "SAT" THEN Holds("a solution was logged", sols # <<>>)
           ELSE IF Ev.kind = "ENUMERATION_COMPLETE" THEN /\ Holds("a contradiction was derived", falsum)
                                                         /\ Check("number of solutions", Ev.args, << <<"n", Len(sols)>> >>)
           ELSE IF Ev.kind = "BOUNDS"
                THEN /\ Holds("bounds are for an objective", M.hasobj /\ Len(Ev.args) = 2)
                     /\ Check("the upper bound is the best solution logged", Ev.args[2],
                              IF sols = <<>> THEN <<"inf", 0>> ELSE <<"n", Best>>)
                     /\ Holds("the lower bound follows",
                              IF Ev.args[1][1] = "inf" THEN Rup(P, Make(<<>>, 1)) ELSE Rup(P, ObjectiveAtLeast(Ev.args[1][2])))
           ELSE Check("a conclusion there is", Ev.kind, "NONE")
    /\ UNCHANGED <<P, M, sols, ctx>>

End == IsEvent("end") /\ Holds("a conclusion was reached", fin # None) /\ UNCHANGED <<P, M, sols, ctx, fin>>

\* The proof against what the search reported.
Reported ==
    /\ Check("the solutions logged are those reported", [i \in 1..Len(sols) |-> sols[i].vals], Ev.sols)
    /\ LET n == Len(Ev.sols)
           sign == IF M.begin.minimise THEN 1 ELSE -1
           g == M.begin.goal
           value(i) == sign * (g[2] * Ev.sols[i][g[1]] + g[3])
       IN  /\ Holds("the objective logged is the model's", Ev.objective < 0 \/ \A i \in 1..n : ObjectiveUnder(sols[i].lits) = value(i))
           /\ IF Ev.objective < 0
              THEN Check("conclusion", fin.kind, IF Ev.completed THEN IF n = 0 THEN "UNSAT" ELSE "ENUMERATION_COMPLETE"
                                                 ELSE IF n = 0 THEN "NONE" ELSE "SAT")
              ELSE IF Ev.completed
                   THEN Check("conclusion", <<fin.kind, fin.args>>,
                              <<"BOUNDS", IF n = 0 THEN << <<"inf", 0>>, <<"inf", 0>> >> ELSE << <<"n", value(n)>>, <<"n", value(n)>> >> >>)
                   ELSE Check("conclusion", fin.kind, IF n = 0 THEN "NONE" ELSE "BOUNDS")

Outcome ==
    /\ IsEvent("outcome")
    /\ IF M.begin.thrown = "no" THEN Reported ELSE TRUE
    /\ P' = None /\ M' = None /\ sols' = <<>> /\ ctx' = None /\ fin' = None

Init == l = 1 /\ P = None /\ M = None /\ sols = <<>> /\ ctx = None /\ fin = None
Next == Begin \/ Assertion \/ Model \/ Header \/ RupStep \/ Implication \/ PolStep \/ RedStep \/ Goal \/ Qed \/ Delete \/ DeleteRange
        \/ Solution("soli") \/ Solution("solx") \/ Equal \/ Output \/ Conclusion \/ End \/ Outcome
Spec == Init /\ [][Next]_vars
=============================================================================
