----------------------------- MODULE LubyTrace -----------------------------
(* A schedule is created with a scale, asked for its cutoff, advanced, and   *)
(* copied: copies are independent from then on.                              *)
EXTENDS BigInt, LubySeq, TraceBase

VARIABLE sched        \* handle -> [at: position in the sequence, scale]

Init == sched = << >> /\ l = 1

Put(h, s) == sched' = [x \in (DOMAIN sched) \cup {h} |-> IF x = h THEN s ELSE sched[x]]

TBegin == IsEvent("begin") /\ sched' = << >>
TCreate == IsEvent("create") /\ Put(Ev.h, [at |-> 1, scale |-> Ev.scale])
TCopy == IsEvent("copy") /\ Put(Ev.h, sched[Ev.from])
TAdvance == IsEvent("advance") /\ Put(Ev.h, [sched[Ev.h] EXCEPT !.at = @ + Ev.n])
TCutoff ==
    /\ IsEvent("cutoff")
    /\ Check("cutoff", Ev.r, Mul(FromInt(LubyTerm(sched[Ev.h].at)), sched[Ev.h].scale))
    /\ UNCHANGED sched

Next == TBegin \/ TCreate \/ TCopy \/ TAdvance \/ TCutoff
Spec == Init /\ [][Next]_<<sched, l>>
=============================================================================
