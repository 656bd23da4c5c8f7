---------------------------- MODULE PresenceTrace ---------------------------
(* What a task's presence comes to: nothing to say when the task is always    *)
(* there, the presence itself otherwise, and never there for a constant zero. *)
EXTENDS TraceBase
B == INSTANCE BigInt

Nothing == <<>>
IsConstant(v) == v # <<>> /\ v[1] = 0

Resolved(v) ==
    IF v = <<>> THEN [ok |-> TRUE, literal |-> Nothing, never |-> FALSE]
    ELSE IF ~IsConstant(v) THEN [ok |-> TRUE, literal |-> v, never |-> FALSE]
    ELSE IF v[3] = B!FromInt(1) THEN [ok |-> TRUE, literal |-> Nothing, never |-> FALSE]
    ELSE IF v[3] = B!FromInt(0) THEN [ok |-> TRUE, literal |-> v, never |-> TRUE]
    ELSE [ok |-> FALSE]

\* ": presences must be within {0, 1}"
\* "invalid problem definition: "
Prefix == <<105, 110, 118, 97, 108, 105, 100, 32, 112, 114, 111, 98, 108, 101, 109, 32, 100, 101, 102, 105, 110, 105, 116, 105, 111, 110, 58, 32>>
Complaint == <<58, 32, 112, 114, 101, 115, 101, 110, 99, 101, 115, 32, 109, 117, 115, 116, 32, 98, 101, 32, 119, 105, 116, 104, 105, 110, 32, 123, 48, 44, 32, 49, 125>>

Rule ==
    /\ IsEvent("rule")
    /\ LET r == Resolved(Ev.v)
       IN  /\ Check("refused", Ev.thrown, ~r.ok)
           /\ IF r.ok THEN /\ Check("literal", Ev.literal, r.literal)
                           /\ Check("never present", Ev.never, r.never)
              ELSE Check("complaint", Ev.what, Prefix \o Ev.name \o Complaint)

\* presences that are all the constant one leave no mark on the model
Written == IsEvent("written") /\ Check("model with every presence one", Ev.ones, Ev.without)

Init == l = 1
Next == Rule \/ Written
Spec == Init /\ [][Next]_l
=============================================================================
