--------------------------- MODULE StateStoreTrace ---------------------------
(* Histories of the store of domains, and everything that can be asked of it *)
(* along the way, against StateStore.                                        *)
EXTENDS StateStore, TraceBase

VARIABLE kept   \* the domains copies were taken of

tvars == <<store, kept, l>>

Ordered(S) == SetToSortSeq(S, <)
Runs(S) ==
    LET starts == Ordered({x \in S : (x - 1) \notin S})
        ends == Ordered({x \in S : (x + 1) \notin S})
    IN  [i \in 1..Len(starts) |-> <<starts[i], ends[i]>>]
First(s, n) == IF n < Len(s) THEN SubSeq(s, 1, n) ELSE s

Init == doms = <<>> /\ dead = FALSE /\ guesses = <<>> /\ extras = <<>> /\ states = <<>> /\ hooks = <<>> /\ saved = <<>> /\ kept = <<>> /\ l = 1

TBegin ==
    /\ IsEvent("begin")
    /\ doms' = [i \in 1..Len(Ev.bounds) |-> Ev.bounds[i][1]..Ev.bounds[i][2]]
    /\ dead' = FALSE /\ guesses' = <<>> /\ extras' = <<>> /\ states' = <<>> /\ hooks' = <<>> /\ saved' = <<>> /\ kept' = <<>>
    /\ Check("identifiers", Ev.ids, [i \in 1..(2 * Len(Ev.bounds)) |-> (i - 1) \div 2])

TInfer ==
    /\ IsEvent("infer")
    /\ Infer(Ev.t, Ev.op, Ev.a, Ev.b)
    /\ Check("what an inference reports", Ev.result, Report(Values(Ev.t), Kept(Values(Ev.t), Ev.op, Ev.a, Ev.b)))
    /\ UNCHANGED kept

TTruth ==
    /\ IsEvent("truth")
    /\ Check("what a constant literal reports", <<Ev.result, Ev.test>>, IF Ev.which THEN <<"none", "true">> ELSE <<"contradiction", "false">>)
    /\ UNCHANGED <<store, kept>>

TGuess ==
    /\ IsEvent("guess")
    /\ Guess(Ev.t, Ev.op, Ev.a, Ev.b)
    /\ Check("a guess", Ev.thrown, IF dead' THEN "unexpected" ELSE "no")
    /\ UNCHANGED kept

TBacktrack ==
    /\ IsEvent("backtrack")
    /\ Return(Ev.to)
    /\ Check("what runs on returning", Ev.hooks, ToRun(Ev.to))
    /\ UNCHANGED kept

TChange == IsEvent("change") /\ Check("what a constraint kept", Ev.was, states[Ev.h]) /\ Change(Ev.h, Ev.x) /\ UNCHANGED kept

TOther ==
    \/ IsEvent("extra") /\ Extra(Ev.t, Ev.op, Ev.a, Ev.b) /\ UNCHANGED kept
    \/ IsEvent("epoch") /\ Save(Ev.sub) /\ UNCHANGED kept
    \/ IsEvent("hook") /\ AddHook(Ev.n) /\ UNCHANGED kept
    \/ IsEvent("cstate") /\ AddState(Ev.x) /\ UNCHANGED kept
    \/ IsEvent("keep") /\ kept' = Append(kept, doms) /\ UNCHANGED store
    \/ IsEvent("rekeep") /\ kept' = Append(kept, kept[Ev.slot]) /\ UNCHANGED store

\* What both faces of the store answer.
Common(S) ==
    /\ Check("in_domain", ToSet(Ev.has), S \intersect (-14..14))
    /\ Check("domain_size", Ev.size, Cardinality(S))
    /\ Check("copy_of_values", Ev.copy, Runs(S))
    /\ Check("lower_bound", Ev.lower, Min(S))
    /\ Check("upper_bound", Ev.upper, Max(S))
    /\ Check("has_single_value", Ev.has_single, Cardinality(S) = 1)
    /\ Check("the value", <<Ev.value, Ev.threw>>, IF Cardinality(S) = 1 THEN <<Ordered(S), FALSE>> ELSE <<<<>>, TRUE>>)

TSee ==
    /\ IsEvent("see")
    /\ \E S \in {Values(Ev.t)} : \E o \in {Ordered(S)} :
        /\ Common(S)
        /\ Check("bounds", Ev.bounds, <<Min(S), Max(S)>>)
        /\ Check("optional_single_value", Ev.single, IF Cardinality(S) = 1 THEN o ELSE <<>>)
        /\ Check("domain_has_holes", Ev.holes, Cardinality(S) # Max(S) - Min(S) + 1)
        /\ Check("each_value_immutable", Ev.each, o)
        /\ Check("each_value_mutable", Ev.each_mut, o)
        /\ Check("for_each_value_immutable", Ev["for"], o)
        /\ Check("for_each_value_mutable", Ev.for_mut, o)
        /\ Check("for_each_value_immutable that stops", Ev.stopping, First(o, Ev.stop))
        /\ Check("for_each_value_mutable that stops", Ev.stopping_mut, First(o, Ev.stop))
    /\ UNCHANGED <<store, kept>>

TLook ==
    /\ IsEvent("look")
    /\ \E S \in {ValuesIn(IF Ev.slot = 0 THEN doms ELSE kept[Ev.slot], Ev.t)} : \E o \in {Ordered(S)} :
        /\ Common(S)
        /\ Check("each_value", Ev.each, o)
        /\ Check("each_value_reversed", Ev.reversed, Reverse(o))
        /\ Check("the values of several", <<Ev.many, Ev.many_threw>>, IF Cardinality(S) = 1 THEN <<o \o o, FALSE>> ELSE <<<<>>, TRUE>>)
    /\ UNCHANGED <<store, kept>>

TTest == IsEvent("test") /\ Check("test_literal", Ev.result, Truth(Values(Ev.t), Ev.op, Ev.a, Ev.b)) /\ UNCHANGED <<store, kept>>
TMeets == IsEvent("meets") /\ Check("domains_intersect", Ev.result, Values(Ev.t) \intersect Values(Ev.u) # {}) /\ UNCHANGED <<store, kept>>
TOverlaps ==
    /\ IsEvent("overlaps")
    /\ Check("domain_intersects_with", Ev.result, \E i \in 1..Len(Ev["with"]) : \E x \in Values(Ev.t) : Ev["with"][i][1] <= x /\ x <= Ev["with"][i][2])
    /\ UNCHANGED <<store, kept>>

\* Values removed while going through them do not disturb the going through.
TSweep ==
    /\ IsEvent("sweep")
    /\ Check("values given while removing some", Ev.given, Ordered(Values(Ev.t)))
    /\ doms' = [doms EXCEPT ![Ev.t[1]] = {x \in @ : (Ev.t[2] * x + Ev.t[3]) \notin ToSet(Ev.gone)}]
    /\ UNCHANGED <<dead, guesses, extras, states, hooks, saved, kept>>

TGuesses ==
    /\ IsEvent("guesses")
    /\ Check("the decisions taken", [i \in 1..Len(Ev.list) |-> <<Ev.list[i].t, Ev.list[i].op, Ev.list[i].a, Ev.list[i].b>>], extras \o guesses)
    /\ UNCHANGED <<store, kept>>

Next == TBegin \/ TInfer \/ TTruth \/ TGuess \/ TBacktrack \/ TChange \/ TOther \/ TSee \/ TLook \/ TTest \/ TMeets \/ TOverlaps \/ TSweep \/ TGuesses
Spec == Init /\ [][Next]_tvars
=============================================================================
