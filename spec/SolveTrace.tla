----------------------------- MODULE SolveTrace -----------------------------
(* Validates recorded enumerations: the solutions the solver reported for a  *)
(* model are exactly the assignments within the domains that satisfy every   *)
(* constraint, each once, in any order.                                      *)
EXTENDS TraceBase, Semantics, Rejections

Vars(m) == m.vars

Enumerated(m) ==
    LET cons == PrepareAll(m.cons, m.vars)
        want == TLCEval(Solutions(m.vars, cons))
        got  == Range(m.sols)
    IN  /\ Check("repeated solutions", Cardinality(got), Len(m.sols))
        /\ Check("solutions reported that are none", got \ want, {})
        /\ Check("solutions missed", want \ got, {})
        /\ Check("completed", m.completed, TRUE)

Model ==
    /\ IsEvent("model")
    /\ LET bad == \E i \in 1..Len(Ev.cons) : Rejected(Ev.cons[i], Ev.vars)
       IN  /\ Check("rejected", Ev.thrown, IF bad THEN "invalid" ELSE "no")
           /\ bad \/ Enumerated(Ev)

Init == l = 1
Next == Model
Spec == Init /\ [][Next]_l
=============================================================================
