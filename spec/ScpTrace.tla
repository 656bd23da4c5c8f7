------------------------------ MODULE ScpTrace ------------------------------
(* Recorded documents: what the solver wrote for models it was given, what     *)
(* the reader made of those and of altered ones, and what the command line     *)
(* solver printed for them.                                                    *)
EXTENDS TraceBase, Scp

VARIABLES d,    \* the document, in the language that is read
          w,    \* and in the language that is written
          text

vars == <<d, w, text, l>>

None == [ok |-> FALSE, why |-> "none", ill |-> FALSE]
Init == l = 1 /\ d = None /\ w = None /\ text = <<>>

TDoc ==
    /\ IsEvent("doc")
    /\ text' = Ev.text
    /\ d' = TLCEval(Parsed(Ev.text, FALSE))
    /\ w' = IF d'.ok \/ ~Ev.written THEN d' ELSE TLCEval(Parsed(Ev.text, TRUE))

RECURSIVE EachAlike(_, _, _, _)
EachAlike(cs, ds, doms, i) ==
    IF i > Len(cs) THEN TRUE
    ELSE Holds(<<"constraint means something else", i, cs[i], ds[i]>>, Alike(cs[i], ds[i], doms)) /\ EachAlike(cs, ds, doms, i + 1)

\* what was written is what was posted
TPosted ==
    /\ IsEvent("posted")
    /\ Holds(<<"what was written is no problem", w.why>>, w.ok)
    /\ Check("names", w.names, Ev.names)
    /\ Check("bounds", w.doms, Ev.doms)
    /\ Check("labels", w.labels, Ev.labels)
    /\ Holds("objective", SameObjective(w.obj, Ev.obj))
    /\ EachAlike(w.cons, PrepareAll(Ev.cons, DomSeqs(w.doms)), w.doms, 1)
    /\ UNCHANGED <<d, w, text>>

\* a model that cannot be written: no keyword for it, or no proof
Unwritable(c) == c.k \in {"compare", "linle"} /\ c.r.m \in {"mustnot", "notif"}
TUnwritten ==
    /\ IsEvent("unwritten")
    /\ Holds("a model that can be written was not",
             \/ \E i \in 1..Len(Ev.cons) : Unwritable(Ev.cons[i]) \/ R0!Rejected(Ev.cons[i], DomSeqs(Ev.doms))
             \/ Ev.obj # <<>> /\ Ev.obj[1][1] = 0
             \/ Ev.known)
    /\ UNCHANGED <<d, w, text>>

Checkable == d.small /\ BoxSize(d.doms, Len(d.doms)) <= 3000
Found == {a \in Box(d.doms) : SatAll(d.cons, a)}
Within(a) == \A i \in 1..Len(d.doms) : d.doms[i][1] <= a[i] /\ a[i] <= d.doms[i][2]

Excused == \E i \in 1..Len(d.cons) : Fussy(d.cons[i])
Refused == Ev.outcome \in {"error", "unsupported"}
TRead ==
    /\ IsEvent("read")
    /\ IF Ev.outcome = "slow" THEN Holds("takes too long", d.ok /\ ~d.small)
       ELSE IF ~d.ok
       THEN /\ Holds(<<"read although it is no problem", d.why>>, Refused)
            /\ d.why # "keyword" => Holds("not an unknown keyword", Ev.outcome = "error")
            /\ d.why = "keyword" /\ ~d.ill => Holds("an unknown keyword", Ev.outcome = "unsupported")
       ELSE IF d.ill
       THEN Holds("accepted although ill formed", Refused \/ Ev.solved = "refused")
       ELSE IF (Excused \/ ~d.small) /\ Ev.outcome = "error" THEN TRUE
       ELSE /\ Check("outcome", Ev.outcome, "ok")
            /\ Check("names", {<<Ev.map[i][1], Ev.map[i][2]>> : i \in 1..Len(Ev.map)}, {<<d.names[i], i>> : i \in 1..Len(d.names)})
            /\ Check("bounds", Ev.doms, d.doms)
            /\ Check("objective", Ev.obj, d.obj)
            /\ Check("given labels", Ev.named, [i \in 1..Len(d.autos) |-> ~d.autos[i]])
            /\ Check("how many labels", Len(Ev.labels), Len(d.labels))
            /\ \A i \in 1..Len(d.labels) : ~d.autos[i] => Check("label", Ev.labels[i], d.labels[i])
            /\ Holds("solving", Ev.solved = "ok" \/ Excused \/ ~d.small)
            /\ Holds("a solution that is none", \A i \in 1..Len(Ev.sols) : Within(Ev.sols[i]) /\ (d.small => SatAll(d.cons, Ev.sols[i])))
            /\ Ev.complete /\ Checkable =>
                   /\ Check("solutions", {Ev.sols[i] : i \in 1..Len(Ev.sols)}, Found)
                   /\ Check("how many solutions", Len(Ev.sols), Cardinality(Found))
    /\ UNCHANGED <<d, w, text>>

Given(p) == [i \in 1..Len(p.labels) |-> IF p.autos[i] THEN "" ELSE p.labels[i]]

\* reading and writing again
TAgain ==
    /\ IsEvent("again")
    /\ d.ok /\ ~d.ill
    /\ LET r == TLCEval(Parsed(Ev.text, FALSE))
       IN  /\ Holds(<<"what was written again is no problem", r.why>>, r.ok)
           /\ Check("names", r.names, d.names)
           /\ Check("bounds", r.doms, d.doms)
           /\ Check("labels", Given(r), Given(d)) /\ Check("which are given", r.autos, d.autos)
           /\ Holds("objective", SameObjective(r.obj, d.obj))
           /\ Checkable => EachAlike(r.cons, d.cons, d.doms, 1)
           /\ Ev.same => Check("text", SX!ReadOne(Ev.text), SX!ReadOne(text))
    /\ UNCHANGED <<d, w, text>>

\* what the command line solver prints: one line for each solution, names in
\* the order of their characters
Before(i, j) ==
    LET s == d.codes[i] t == d.codes[j]
    IN  \/ Len(s) < Len(t) /\ SubSeq(t, 1, Len(s)) = s
        \/ \E k \in 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)) : s[k] < t[k] /\ SubSeq(s, 1, k - 1) = SubSeq(t, 1, k - 1)
Order == TLCEval([p \in 1..Len(d.names) |-> CHOOSE i \in 1..Len(d.names) : Cardinality({j \in 1..Len(d.names) : Before(j, i)}) = p - 1])
RECURSIVE LineFrom(_, _, _)
LineFrom(ord, a, p) == IF p > Len(ord) THEN "" ELSE d.names[ord[p]] \o "=" \o ToString(a[ord[p]]) \o " " \o LineFrom(ord, a, p + 1)

Cost(a) == Val(d.obj[1], a)

\* kinds of which some rules cannot be logged in a proof (see ProofTrace)
CannotProve == {"binpackingload", "knapsack", "gcc", "disjunctive", "disjunctive2d", "cumulative"}
ProofStopped == Ev.prove /\ Ev.status = 134 /\ \E i \in 1..Len(d.cons) : d.cons[i].k \in CannotProve
TTool ==
    /\ IsEvent("tool")
    /\ IF ~d.ok
       THEN /\ Check("lines", Ev.out, <<>>)
            /\ d.why = "keyword" /\ ~d.ill => Check("status for an unknown keyword", Ev.status, 2)
            /\ d.why # "keyword" => Check("status", Ev.status, 1)
            /\ Holds("a word about the error", Ev.said)
       ELSE IF d.ill \/ Excused THEN d.ill => (Ev.parse \/ Holds("status", Ev.status # 0))
       ELSE IF ~d.small \/ ProofStopped THEN TRUE
       ELSE IF Ev.parse THEN Check("status", Ev.status, 0) /\ Check("lines", Ev.out, <<>>)
       ELSE IF ~Checkable \/ Excused THEN TRUE
       ELSE /\ Check("status", Ev.status, 0)
            /\ \E ord \in {Order} : \E all \in {Found} : \E line \in {[a \in all |-> LineFrom(ord, a, 1)]} :
               \E shown \in {{line[a] : a \in all}} :
               \E n \in {Cardinality({i \in 1..Len(Ev.out) : Ev.out[i] \in shown})} :
               \E of \in {[i \in 1..n |-> CHOOSE a \in all : line[a] = Ev.out[i]]} :
                   /\ Holds("lines that are no solutions", IF Ev.stats THEN n < Len(Ev.out) ELSE n = Len(Ev.out))
                   /\ Holds("solutions come first", \A i \in 1..n : Ev.out[i] \in shown)
                   /\ Holds("a solution shown twice", Cardinality({Ev.out[i] : i \in 1..n}) = n)
                   /\ Ev.stats => Holds("counted solutions", \E i \in (n + 1)..Len(Ev.out) : Ev.out[i] = "solutions: " \o ToString(n))
                   /\ IF d.obj # <<>>
                      THEN /\ Holds("some solution", (n > 0) = (all # {}))
                           /\ Holds("each better than the last", \A i \in 1..(n - 1) : Cost(of[i + 1]) < Cost(of[i]))
                           /\ n > 0 => Holds("the last is best", \A a \in all : Cost(of[n]) <= Cost(a))
                      ELSE IF Ev.all THEN Check("how many solutions", n, Cardinality(all))
                      ELSE Check("the first solution", n, IF all = {} THEN 0 ELSE 1)
    /\ UNCHANGED <<d, w, text>>

\* using it wrongly
TUsage ==
    /\ IsEvent("usage")
    /\ Check("status", Ev.status, IF Ev.what = "help" THEN 0 ELSE 1)
    /\ Holds("it says something", Ev.said)
    /\ UNCHANGED <<d, w, text>>

Next == TDoc \/ TPosted \/ TUnwritten \/ TRead \/ TAgain \/ TTool \/ TUsage
Spec == Init /\ [][Next]_vars
=============================================================================
