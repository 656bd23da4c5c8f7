---------------------------- MODULE RegexConf ------------------------------
(* Conformance of compiled automata: each line of the trace is one           *)
(* expression with the automaton the implementation compiled it to.  TLC     *)
(* explores the product of the specification's transition system (sets of    *)
(* derivatives) with the automaton (sets of active states), over every word  *)
(* of every length: the two must agree on acceptance in every product state. *)
EXTENDS Regex, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES p, D, A, fresh

ToSym(x) == IF Len(x) = 1 THEN Sym(x[1]) ELSE x
SetOf(s) == {s[i] : i \in 1..Len(s)}

Sigma(i) == {ToSym(x) : x \in SetOf(Trace[i].alphabet)}
Meaning(i) == Parse(Trace[i].regex, Sigma(i))

\* An automaton is well formed when every state it mentions exists.
WellFormed(r) ==
    /\ r.n >= 1
    /\ Len(r.trans) = r.n
    /\ \A f \in SetOf(r.finals) : f \in 0..(r.n - 1)
    /\ \A q \in 1..r.n : \A k \in 1..Len(r.trans[q]) :
          \A x \in SetOf(r.trans[q][k][2]) : x \in 0..(r.n - 1)

Init ==
    /\ p \in 1..Len(Trace)
    /\ D = IF Trace[p].ok THEN {Meaning(p).e} ELSE {}
    /\ A = IF Trace[p].ok THEN {0} ELSE {}
    /\ fresh = TRUE

Targets(r, q, a) == UNION {SetOf(r.trans[q + 1][k][2]) : k \in {j \in 1..Len(r.trans[q + 1]) : ToSym(r.trans[q + 1][j][1]) = a}}

\* Every symbol that can matter, and one that can never occur.
Alphabet(i) ==
    Sigma(i) \cup UNION {SymbolsOf(e) : e \in D}
             \cup UNION {{ToSym(Trace[i].trans[q + 1][j][1]) : j \in 1..Len(Trace[i].trans[q + 1])} : q \in A}

Read(a) ==
    /\ Trace[p].ok
    /\ (D # {} \/ A # {})
    /\ D' = StepSet(D, a)
    /\ A' = UNION {Targets(Trace[p], q, a) : q \in A}
    /\ fresh' = FALSE
    /\ UNCHANGED p

Next == \E a \in Alphabet(p) : Read(a)

Spec == Init /\ [][Next]_<<p, D, A, fresh>>

\* The expression is accepted by the reader exactly when it fits the grammar.
GrammarAgrees == fresh => Trace[p].ok = Meaning(p).ok

AutomatonWellFormed == (fresh /\ Trace[p].ok) => WellFormed(Trace[p])

\* In every product state, accepting means the same thing on both sides.
LanguageAgrees ==
    Trace[p].ok => (AcceptsNow(D) <=> (A \cap SetOf(Trace[p].finals) # {}))

\* The reference matcher offered alongside the automaton agrees as well.
ReferenceAgrees ==
    (fresh /\ Trace[p].ok) =>
        \A k \in 1..Len(Trace[p].words) :
            LET w == Trace[p].words[k]
            IN  InLanguage(Meaning(p).e, [j \in 1..Len(w[1]) |-> ToSym(w[1][j])]) = (w[2] = 1)
=============================================================================
