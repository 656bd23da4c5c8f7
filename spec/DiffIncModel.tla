---------------------------- MODULE DiffIncModel ---------------------------
(* The gated incremental run, as a design: bounds change, arcs join, search  *)
(* backtracks, and every run must still reach the full fixpoint while        *)
(* expanding only nodes that beat their gate.  The graph is fixed; the       *)
(* histories are all of them.                                                *)
EXTENDS DiffGraph

CONSTANTS Top, MaxDepth, Graph

N == 3
A0 == CASE Graph = 1 -> << <<1, 2, 0>>, <<2, 3, 1>>, <<1, 3, -1>>, <<3, 1, 2>> >>
        [] Graph = 2 -> << <<1, 2, -1>>, <<2, 3, -1>>, <<3, 2, 1>>, <<1, 3, 0>> >>
Uncond == CASE Graph = 1 -> {1, 2} [] Graph = 2 -> {1}

VARIABLES lb, gate, active, forced, stack, fresh
vars == <<lb, gate, active, forced, stack, fresh>>

Consistent(A) == ~ NegativeCycle(N, A0, A)

Init ==
    /\ lb = [v \in 1..N |-> 0] /\ gate = [v \in 1..N |-> 0]
    /\ active = Uncond /\ forced = 1..N /\ stack = << >> /\ fresh = FALSE

Tighten == \E v \in 1..N : \E x \in (lb[v] + 1)..Top :
    lb' = [lb EXCEPT ![v] = x] /\ fresh' = FALSE /\ UNCHANGED <<gate, active, forced, stack>>
Activate == \E e \in DOMAIN A0 \ active :
    /\ Consistent(active \cup {e})
    /\ active' = active \cup {e} /\ forced' = forced \cup {A0[e][1]} /\ fresh' = FALSE /\ UNCHANGED <<lb, gate, stack>>

\* Label-correcting search from the seeds, expanding only what beats its gate.
RECURSIVE Settle(_, _)
Settle(b, seen) ==      \* seen: nodes reached, with their best bound b
    LET expand == {v \in seen : b[v] > gate[v] \/ v \in forced}
        nb == TLCEval([v \in 1..N |->
                MaxOver({b[v]} \cup {b[A0[e][1]] - A0[e][3] : e \in {f \in active : A0[f][2] = v /\ A0[f][1] \in expand}})])
        nseen == seen \cup {A0[e][2] : e \in {f \in active : A0[f][1] \in expand}}
    IN  IF nb = b /\ nseen = seen THEN [b |-> b, seen |-> seen] ELSE Settle(nb, nseen)
Run ==
    LET r == Settle(lb, {v \in 1..N : lb[v] > gate[v]} \cup forced)
    IN  /\ \A v \in 1..N : r.b[v] <= Top + 3
        /\ lb' = r.b
        /\ gate' = [v \in 1..N |-> IF v \in r.seen /\ r.b[v] > gate[v] THEN r.b[v] ELSE gate[v]]
        /\ forced' = {} /\ fresh' = TRUE /\ UNCHANGED <<active, stack>>
\* Search decides only at a fixpoint.
Push == fresh /\ Len(stack) < MaxDepth /\ stack' = Append(stack, <<lb, gate, active>>) /\ UNCHANGED <<lb, gate, active, forced, fresh>>
Pop ==
    /\ stack # << >>
    /\ LET s == stack[Len(stack)] IN lb' = s[1] /\ gate' = s[2] /\ active' = s[3]
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ forced' = {} /\ fresh' = TRUE
Next == Tighten \/ Activate \/ Run \/ Push \/ Pop
Spec == Init /\ [][Next]_vars

Complete == fresh => lb = LowerFix(N, A0, active, lb)
GateBelow == \A v \in 1..N : gate[v] <= lb[v]
GateClosed == fresh => \A e \in active : gate[A0[e][2]] >= gate[A0[e][1]] - A0[e][3]
=============================================================================
