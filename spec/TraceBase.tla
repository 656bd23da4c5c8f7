----------------------------- MODULE TraceBase -----------------------------
(* Idioms shared by every module that validates recorded executions: the     *)
(* trace file is named by the environment variable TRACE, one JSON event per *)
(* line; l is the position of the next event to explain.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]

IsEvent(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1

\* A comparison that says what differed before it makes the step impossible.
Check(what, got, want) ==
    IF got = want THEN TRUE
    ELSE PrintT(<<"@@MISMATCH", l, what, "got", got, "want", want>>) /\ FALSE

Holds(what, b) ==
    IF b THEN TRUE ELSE PrintT(<<"@@MISMATCH", l, what>>) /\ FALSE

\* Every event consumed: one state per event plus the initial state.
TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  /\ PrintT(<<"@@END", d - 1, Len(Trace)>>)
        /\ d - 1 = Len(Trace)
=============================================================================
