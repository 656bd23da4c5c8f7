"""What each check builds, runs and validates."""

INT = ["gcs/exception.cc", "gcs/innards/integer_overflow.cc"]

DRIVERS = {
    "regex": dict(sources=["gcs/constraints/regular/regex.cc"] + INT),
    "sexpr": dict(sources=["gcs/innards/s_expr.cc"] + INT),
    "arith": dict(sources=["gcs/innards/power.cc"] + INT),
    "bits": dict(sources=["gcs/innards/proofs/bits_encoding.cc", "gcs/innards/power.cc"] + INT),
    "itree": dict(sources=INT),
    "intervalset": dict(sources=INT),
    "statestore": dict(sources="lib"),
    "propagation": dict(sources="lib"),
    "diffinc": dict(sources=["gcs/constraints/difference/difference_incremental.cc"] + INT),
    "diffsimp": dict(sources=["gcs/constraints/difference/difference_simplify.cc", "gcs/stats.cc", "gcs/constraint.cc"] + INT),
    "views": dict(sources=["gcs/variable_id.cc", "gcs/variable_condition.cc", "gcs/innards/variable_id_utils.cc", "gcs/constraints/linear/utils.cc"] + INT),
    "arrayparam": dict(sources=INT),
    "figures": dict(sources="lib"),
    "stats": dict(sources=["gcs/stats.cc", "gcs/constraint.cc", "gcs/constraints/cumulative/derived_cumulative_stats.cc"] + INT),
    "readers": dict(sources=INT),
    "schedules": dict(sources=INT),
    "names": dict(sources="lib"),
    "presence": dict(sources="lib"),
    "proof": dict(sources="lib"),
    "scp": dict(sources="lib"),
    "scpbin": dict(sources="lib"),
    "search": dict(sources="lib"),
    "solve": dict(sources="lib"),
    "levels": dict(sources="lib"),
    "luby": dict(sources=["gcs/restarts.cc"] + INT),
}


def c13(c):
    c.drive("sexpr", shards=8)
    c.validate("SExprTrace", "sexpr_*.ndjson")


def c14(c):
    c.drive("regex", shards=6)
    c.validate("RegexConf", "regex_*.ndjson")


def c15(c):
    c.drive("arith", shards=8)
    c.validate("ArithTrace", "arith_*.ndjson")
    c.validate("ArithTrace", "register_*.ndjson")


def c16(c):
    c.model("DiffIncModel", workers=4)
    c.model("DiffIncModel", cfg="DiffIncModel2", workers=4)
    c.drive("diffinc", shards=8)
    c.validate("DiffIncTrace", "diffinc_*.ndjson")


def c17(c):
    c.drive("diffsimp", shards=8)
    c.validate("DiffSimplifyTrace", "diffsimp_*.ndjson")


def c05(c):
    c.model("StateStoreModel", workers=4)
    if c.thorough:
        c.model("StateStoreModel", cfg="StateStoreModel2", workers=8)
    c.drive("statestore", shards=8)
    c.validate("StateStoreTrace", "state_*.ndjson")


def c06(c):
    c.drive("intervalset", shards=8)
    c.validate("IntervalSetTrace", "iset_*.ndjson")


def c07(c):
    c.model("PropagationModel", workers=8)
    if c.thorough:
        c.model("PropagationModel", cfg="PropagationModel2", workers=8)
    c.drive("propagation", shards=8)
    c.validate("PropagationTrace", "queue_*.ndjson")


def c18(c):
    c.drive("itree", shards=8)
    c.validate("IntervalTreeTrace", "itree_*.ndjson")


def c19(c):
    c.drive("bits", shards=8)
    c.validate("BitsTrace", "bits_*.ndjson")


def c20(c):
    c.drive("views", shards=8)
    c.validate("ExprTrace", "views_*.ndjson")


def c21(c):
    c.drive("arrayparam", shards=8)
    c.validate("ArrayParamTrace", "arrayparam_*.ndjson")


def c23(c):
    c.drive("stats", shards=8)
    c.validate("StatsTrace", "stats_*.ndjson")
    c.drive("figures", shards=4)
    c.validate("FiguresTrace", "figures_*.ndjson")
    search(c, "", 7, 2500, 60000)


def c22(c):
    c.drive("readers", shards=8)
    c.validate("ReaderTrace", "readers_*.ndjson")


def c27(c):
    c.model("ScheduleModel", workers=4)
    if c.thorough:
        c.model("ScheduleModel", cfg="ScheduleModel2", workers=4)
    c.drive("schedules", shards=8)
    c.validate("ScheduleTrace", "schedule_*.ndjson")


def c28(c):
    c.drive("levels", "--n", 6000 if c.thorough else 400, shards=8, timeout=3000 if c.thorough else 300)
    c.validate("LevelTrace", "level_*.ndjson", timeout=7200 if c.thorough else 700)


def c29(c):
    big = c.thorough
    for setting in ("low", "high", "audit"):
        c.drive("solve", "--setting", setting, "--n", 1000 if big else 60, shards=8, seed=13, timeout=3000 if big else 300)
        for mode, seed in (("presolve", 11), ("restart", 12)):
            c.drive("search", "--setting", setting, "--mode", mode, "--n", 20000 if big else 200, shards=4, seed=seed, timeout=3000 if big else 300)
            c.validate("SearchTrace", setting + "_search_*.ndjson", timeout=7200 if big else 700)
        c.drive("proof", "--setting", setting, "--mode", "settings", "--n", 60 if big else 2, shards=8, timeout=3000 if big else 300)
    c.validate("SolveTrace", "*_enum_*.ndjson", timeout=7200 if big else 700)
    c.validate("ProofTrace", "*_level_*.ndjson", timeout=7200 if big else 700)


def c01(c):
    c.drive("solve", shards=8)
    c.validate("SolveTrace", "enum_*.ndjson")


def search(c, mode, seed, quick, thorough):
    args = ["--n", thorough if c.thorough else quick] + (["--mode", mode] if mode else [])
    c.drive("search", *args, shards=8, seed=seed, timeout=3000 if c.thorough else 300)
    c.validate("SearchTrace", "search_*.ndjson", timeout=7200 if c.thorough else 700)


def c02(c):
    c.model("SearchModel", cfg="SearchModel2", workers=4)
    search(c, "sat", 2, 4000, 60000)


def c03(c):
    c.model("SearchModel", workers=8)
    search(c, "opt", 3, 4000, 60000)


def c04(c):
    search(c, "domains", 4, 4000, 60000)


def c24(c):
    search(c, "branch", 5, 4000, 60000)


def c08(c):
    c.model("LubyModel")
    search(c, "restart", 6, 3000, 60000)
    c.drive("luby", shards=4)
    c.validate("LubyTrace", "luby_*.ndjson")


def c09(c):
    search(c, "presolve", 9, 600, 20000)


def c10(c):
    c.drive("proof", "--n", 150 if c.thorough else 12, shards=8, timeout=3000 if c.thorough else 300)
    c.drive("proof", "--mode", "presolve", "--n", 300 if c.thorough else 16, shards=8, timeout=3000 if c.thorough else 300)
    c.validate("ProofTrace", "pres_*.ndjson", timeout=7200 if c.thorough else 700)
    c.validate("ProofTrace", "proof_*.ndjson", timeout=7200 if c.thorough else 700)


def c11(c):
    c.drive("proof", "--mode", "opb", "--n", 800 if c.thorough else 30, shards=8, timeout=3000 if c.thorough else 300)
    c.validate("OpbTrace", "opb_*.ndjson", timeout=7200 if c.thorough else 700)


def c12(c):
    c.drive("scp", "--n", 120 if c.thorough else 14, shards=8, timeout=3000 if c.thorough else 300)
    c.validate("ScpTrace", "scp_?.ndjson", timeout=7200 if c.thorough else 700)


def c25(c):
    c.drive("presence", shards=8)
    c.validate("PresenceTrace", "rule_*.ndjson")
    c.validate("PresenceTrace", "opb_*.ndjson")
    c.validate("SolveTrace", "enum_*.ndjson")


def c26(c):
    c.drive("names", shards=8)
    c.validate("NamesTrace", "names_*.ndjson")


TRACE = "TLA+ specification; TLC validates traces recorded from the real code against it"

CHECKS = {
    "C01": dict(drivers=["solve"], run=c01, technique=TRACE,
                note="Semantics.tla gives the relation every posted constraint denotes; small random models over every kind of constraint, with shared, constant and view arguments, every consistency level and every brancher, are enumerated by the solver and by the specification."),
    "C02": dict(drivers=["search"], run=c02, technique=TRACE,
                note="Search.tla states the search as a transition system (nodes, decisions, conflicts, incumbent, passes, nogoods, counters); bounded models explore every behaviour over abstract propagation, and every step of recorded runs of the real solver over seeded random models must be one of its steps."),
    "C03": dict(drivers=["search"], run=c03, technique=TRACE,
                note="Search.tla states the search as a transition system (nodes, decisions, conflicts, incumbent, passes, nogoods, counters); bounded models explore every behaviour over abstract propagation, and every step of recorded runs of the real solver over seeded random models must be one of its steps."),
    "C04": dict(drivers=["search"], run=c04, technique=TRACE,
                note="Domains seen at every node must lie within the parent's, restricted by the decision and the incumbent, and keep every solution still to be found; constraints that document generalised arc consistency, posted alone, must leave only supported values."),
    "C24": dict(drivers=["search"], run=c24, technique=TRACE,
                note="Branching.tla states the order and the decisions each documented heuristic allows; every decision of recorded runs must be one of those, over views, constants, shared variables and every weighting scheme."),
    "C08": dict(drivers=["luby", "search"], run=c08, technique=TRACE,
                note="The Luby sequence is specified by its definition and explored as a machine; recorded restarting searches must cut where it says, and every learned nogood of the specification must hide only what was seen or beaten."),
    "C09": dict(drivers=["search"], run=c09, technique=TRACE,
                note="Presolvers.tla says what each presolver may claim of the posted constraints; every recorded search over models built to give them work, under random combinations and configurations of them, must still be a run of Search.tla over the solutions of the model as posted."),
    "C10": dict(drivers=["proof"], run=c10, technique=TRACE,
                note="The proof format is specified as a transition system over the derived constraints (PseudoBoolean.tla: propagation, cutting planes, redundancy, objective, solutions, conclusions); every line of the proofs of seeded random models over every kind of constraint, heuristic, restart and assertion level must be one of its steps, and the conclusion must be what the search reported."),
    "C11": dict(drivers=["proof"], run=c11, technique=TRACE,
                note="For seeded random models over every kind of constraint, every assignment of the model's variables, written in the bits the variables map gives, can be completed to satisfy the recorded file exactly when the specification's relations accept it; so too for bit patterns outside a domain, the literals of conditions, and the objective."),
    "C12": dict(drivers=["scp", "scpbin"], run=c12, technique=TRACE,
                note="The grammar, names, meaning and well-formedness of documents are specified in TLA+ from their characters up; seeded random models are written, read, altered and read again, and run through the command-line solver, whose solution lines, order, status and objective are checked against the document's solutions."),
    "C13": dict(drivers=["sexpr"], run=c13, technique=TRACE,
                note="The specification is a pushdown reader over characters and a printer over terms; every text up to a length over the delimiters, every byte in four contexts, and seeded random texts and terms are compared."),
    "C14": dict(drivers=["regex"], run=c14, technique="TLA+ product exploration of derivatives and compiled automata (TLC)",
                note="For each recorded expression TLC explores the whole product of the specification's derivatives with the implementation's automaton, so agreement is for words of every length; the expressions themselves are an exhaustive set of short ones plus seeded random ones."),
    "C15": dict(drivers=["arith"], run=c15, technique=TRACE,
                note="Results are compared with exact arbitrary-precision integers specified in TLA+; operands are all pairs of extreme values, a small box, the neighbours of exact quotients and products, and seeded random values."),
    "C16": dict(drivers=["diffinc"], run=c16, technique=TRACE,
                note="The state is the active arcs, the potential, both bounds and the gates; traces drive activations, bound changes and backtracking over seeded random graphs, and a bounded model explores every history of the gated run on fixed small graphs."),
    "C17": dict(drivers=["diffsimp"], run=c17, technique=TRACE,
                note="Every outcome is judged by all-pairs distances computed in the specification; systems are all small two-edge ones plus seeded random ones with up to eight nodes."),
    "C05": dict(drivers=["statestore"], run=c05, technique=TRACE,
                note="StateStore.tla keeps every domain as a set, with a stack of epochs to go back to; a bounded model explores every short history over it, and every answer and every change report of recorded histories over plain, view and constant operands must be the one the specification gives."),
    "C06": dict(drivers=["intervalset"], run=c06, technique=TRACE,
                note="The specification is a register machine over mathematical sets with one canonical list of intervals per set; every operation is applied to every set of a small window (also at both ends of the integer range), every pair of sets is compared and intersected, and longer histories are seeded random."),
    "C07": dict(drivers=["propagation"], run=c07, technique=TRACE,
                note="Propagation.tla states who is owed a run and which watched conditions are owed to whom; a bounded model checks that whoever was shown something out of date, or watched for something certain, is never left so when the engine says it is stable. Scripted propagators with random triggers, watches, claims, inferences, contradictions and retirements record every run, under random decisions, save points and returns."),
    "C18": dict(drivers=["itree"], run=c18, technique=TRACE,
                note="The specification is a growing set of intervals; insertion histories are seeded random in sorted, reversed, nested and shuffled orders, with every query of a small session."),
    "C19": dict(drivers=["bits"], run=c19, technique=TRACE,
                note="Every range in a small box, every pair of extreme values and seeded random ranges; small ranges are checked by enumerating the sums the bits can take."),
    "C20": dict(drivers=["views"], run=c20, technique=TRACE,
                note="Handles, conditions and sums are judged by the affine forms and truth values they denote, over arbitrary-precision integers; operands are seeded random, weighted to collapsing cases and to the extremes of the range."),
    "C21": dict(drivers=["arrayparam"], run=c21, technique=TRACE,
                note="The state is which storage every parameter and outside holder refers to; histories over four parameters and four holders are seeded random, with every storage's existence, identity, content and copies recorded after each step."),
    "C23": dict(drivers=["stats", "figures", "search"], run=c23, technique=TRACE,
                note="The state is the registered components, their counts, the notes and the handler; histories are seeded random and every printed line is compared with the specification's."),
    "C22": dict(drivers=["readers"], run=c22, technique=TRACE,
                note="The specification reads the files character by character; inputs are seeded well-formed files in every layout, the same with small mutations, and short texts over the delimiters."),
    "C25": dict(drivers=["presence"], run=c25, technique=TRACE,
                note="The rule itself over constants at every extreme, variables and views; cumulative and disjunctive models whose presences are constants, variables, views and things that are no presence, enumerated by the solver and by the specification; and the models written with every presence one and with none, compared."),
    "C27": dict(drivers=["schedules"], run=c27, technique="TLC model checking of the schedule bounds, and trace validation of the generators and schedule helpers",
                note="Every instance of three tasks is enumerated in the model, where the bounds are compared with every schedule; recorded instances, random and generated from options at and past every limit, are then judged from the definitions."),
    "C28": dict(drivers=["levels"], run=c28, technique=TRACE,
                note="The levels promised are a table in the specification, and what each means is stated over the constraint's set of solutions, so a node's domains are judged without knowing how they were pruned; one constraint over distinct variables at a time, about fourteen nodes each, random domains, terms and branching."),
    "C29": dict(drivers=["solve", "search", "proof"], run=c29, technique=TRACE,
                note="The specifications of solutions, searches and proofs know nothing of these settings, so what is recorded under each of three combinations (everything eager, everything lazy or large, and audits on) must satisfy them as it stands; the level of a proof is computed in the specification from the option and the text in the environment."),
    "C26": dict(drivers=["names"], run=c26, technique=TRACE,
                note="The state is the names taken, the variables, constraints and objective; every byte in six contexts, every short text over the interesting characters, and seeded random histories of creating and posting, with identities read back from the model, from installed constraints during a search, and from the written description."),
}
