---------------------------- MODULE DiffIncTrace ---------------------------
(* The incremental difference-logic algorithms, driven through activations,  *)
(* bound changes and backtracking.  The state is what the propagator keeps   *)
(* between runs: the active arcs, a potential, both bounds, and the bounds   *)
(* the previous run propagated from (the gates).  Everything except the      *)
(* potential is restored on backtracking.                                    *)
EXTENDS DiffGraph, TraceBase

VARIABLES n, arcs, active, pi, lb, ub, glb, gub, stack

vars == <<n, arcs, active, pi, lb, ub, glb, gub, stack, l>>
Init == n = 0 /\ arcs = << >> /\ active = {} /\ pi = << >> /\ lb = << >> /\ ub = << >> /\ glb = << >> /\ gub = << >> /\ stack = << >> /\ l = 1

Arcs1(s) == [e \in 1..Len(s) |-> <<s[e][1] + 1, s[e][2] + 1, s[e][3]>>]
Set1(s) == {s[i] + 1 : i \in 1..Len(s)}

TBegin ==
    /\ IsEvent("begin")
    /\ n' = Ev.n /\ arcs' = TLCEval(Arcs1(Ev.arcs)) /\ active' = Set1(Ev.active)
    /\ lb' = Ev.lb /\ ub' = Ev.ub /\ glb' = Ev.lb /\ gub' = Ev.ub
    /\ pi' = << >> /\ stack' = << >>

\* Adjacency lists every arc once, under the right node.
TAdjacency ==
    /\ IsEvent("adjacency")
    /\ Check("length", Len(Ev.start), n + 1)
    /\ Check("arcs", Len(Ev.arcs), Len(arcs))
    /\ Holds("starts", Ev.start[1] = 0 /\ Ev.start[n + 1] = Len(arcs) /\ \A v \in 1..n : Ev.start[v] <= Ev.start[v + 1])
    /\ Holds("each arc once", {Ev.arcs[i] + 1 : i \in 1..Len(arcs)} = 1..Len(arcs))
    /\ \A v \in 1..n : \A i \in (Ev.start[v] + 1)..Ev.start[v + 1] :
          Check("end", arcs[Ev.arcs[i] + 1][IF Ev.tail THEN 1 ELSE 2], v)
    /\ UNCHANGED <<n, arcs, active, pi, lb, ub, glb, gub, stack>>

TInitial ==
    /\ IsEvent("initial")
    /\ Check("feasible", Ev.ok, ~ NegativeCycle(n, arcs, active))
    /\ Ev.ok => Len(Ev.pi) = n /\ Holds("potential", ValidPotential(arcs, active, Ev.pi))
    /\ pi' = IF Ev.ok THEN Ev.pi ELSE << >>
    /\ UNCHANGED <<n, arcs, active, lb, ub, glb, gub, stack>>

\* An arbitrary potential is examined.
TExamine ==
    /\ IsEvent("examine")
    /\ IF Ev.arc < 0 THEN Holds("valid", ValidPotential(arcs, active, Ev.pi))
       ELSE Holds("offends", (Ev.arc + 1) \in active /\ ~ ValidPotential(arcs, {Ev.arc + 1}, Ev.pi))
    /\ UNCHANGED <<n, arcs, active, pi, lb, ub, glb, gub, stack>>

\* An arc joins the active set, and the potential is repaired.
TActivate ==
    /\ IsEvent("activate")
    /\ LET A == active \cup {Ev.arc + 1}
           ok == ~ NegativeCycle(n, arcs, A)
       IN  /\ Check("feasible", Ev.ok, ok)
           /\ IF ok THEN /\ Holds("repaired", ValidPotential(arcs, A, Ev.pi))
                         /\ Holds("only lowered", \A v \in 1..n : Ev.pi[v] <= pi[v])
                         /\ active' = A
              ELSE /\ Check("left alone", Ev.pi, pi)
                   /\ active' = active
    /\ pi' = Ev.pi
    /\ UNCHANGED <<n, arcs, lb, ub, glb, gub, stack>>

TDeactivate ==
    /\ IsEvent("deactivate")
    /\ active' = active \ {Ev.arc + 1}
    /\ UNCHANGED <<n, arcs, pi, lb, ub, glb, gub, stack>>

TTighten ==
    /\ IsEvent("tighten")
    /\ lb' = [lb EXCEPT ![Ev.node + 1] = Ev.lb]
    /\ ub' = [ub EXCEPT ![Ev.node + 1] = Ev.ub]
    /\ UNCHANGED <<n, arcs, active, pi, glb, gub, stack>>

\* One run in lower-bound orientation (sign 1) or on the reversed, negated
\* system (sign -1).  bound and gate are in that orientation.
RunOk(tail, head, bound, gate, forced, fix, out) ==
    LET S == {out[i][1] + 1 : i \in 1..Len(out)}
        At(v) == CHOOSE i \in 1..Len(out) : out[i][1] + 1 = v
    IN  /\ Holds("settled once", Cardinality(S) = Len(out))
        /\ \A i \in 1..Len(out) :
              LET v == out[i][1] + 1
                  p == out[i][3] + 1
              IN  IF p = 0
                  THEN /\ Holds("a seed", bound[v] > gate[v] \/ v \in forced)
                       /\ Check("seed bound", out[i][2], bound[v])
                  ELSE /\ Holds("active arc", p \in active)
                       /\ Check("predecessor reaches", head[p], v)
                       /\ Holds("settled before", tail[p] \in S /\ At(tail[p]) < i)
                       /\ Check("bound across", out[i][2], out[At(tail[p])][2] - arcs[p][3])
        /\ \A v \in 1..n :
              Check("implied bound", IF v \in S /\ out[At(v)][2] > bound[v] THEN out[At(v)][2] ELSE bound[v], fix[v])

NewGate(gate, out) ==
    [v \in 1..n |->
        LET W == {i \in 1..Len(out) : out[i][1] + 1 = v /\ out[i][2] > gate[v]}
        IN  IF W = {} THEN gate[v] ELSE out[CHOOSE i \in W : TRUE][2]]

NegSeq(s) == [v \in 1..Len(s) |-> -s[v]]

TRun ==
    /\ IsEvent("run")
    /\ RunOk([e \in 1..Len(arcs) |-> arcs[e][1]], [e \in 1..Len(arcs) |-> arcs[e][2]], lb, glb, Set1(Ev.flb),
             LowerFix(n, arcs, active, lb), Ev.lower)
    /\ RunOk([e \in 1..Len(arcs) |-> arcs[e][2]], [e \in 1..Len(arcs) |-> arcs[e][1]], NegSeq(ub), NegSeq(gub), Set1(Ev.fub),
             NegSeq(UpperFix(n, arcs, active, ub)), Ev.upper)
    /\ lb' = TLCEval(LowerFix(n, arcs, active, lb))
    /\ ub' = TLCEval(UpperFix(n, arcs, active, ub))
    /\ glb' = TLCEval(NewGate(glb, Ev.lower))
    /\ gub' = TLCEval(NegSeq(NewGate(NegSeq(gub), Ev.upper)))
    /\ UNCHANGED <<n, arcs, active, pi, stack>>

TPush ==
    /\ IsEvent("push")
    /\ stack' = Append(stack, <<active, lb, ub, glb, gub>>)
    /\ UNCHANGED <<n, arcs, active, pi, lb, ub, glb, gub>>
TPop ==
    /\ IsEvent("pop")
    /\ LET s == stack[Len(stack)]
       IN  active' = s[1] /\ lb' = s[2] /\ ub' = s[3] /\ glb' = s[4] /\ gub' = s[5]
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED <<n, arcs, pi>>

Next == TBegin \/ TAdjacency \/ TInitial \/ TExamine \/ TActivate \/ TDeactivate \/ TTighten \/ TRun \/ TPush \/ TPop
Spec == Init /\ [][Next]_vars

\* The gates stay below the bounds (in their orientation), and the potential
\* stays valid for whatever is active.
PotentialValid == pi # << >> => ValidPotential(arcs, active, pi)
=============================================================================
