----------------------------- MODULE StatsTrace -----------------------------
(* The statistics a search hands back: counters, components registered by    *)
(* whoever has something to report, and notes said along the way.  A         *)
(* component is in the report once, at the place of its first registration,  *)
(* with its figures as they are when the report is printed; a note is heard  *)
(* when it is said and kept in order.                                        *)
EXTENDS TraceBase, FiniteSets

Components == 1..5
Fields == {"n_propagators", "idempotence_downgrades", "recursions", "failures", "propagations", "effectful_propagations",
           "contradicting_propagations", "max_depth", "restarts", "learned_nogoods", "solutions"}
Level == [debug |-> 0, detailed |-> 1, general |-> 2, important |-> 3]

VARIABLES registered, counts, notes, handler, counter, halves
vars == <<registered, counts, notes, handler, counter, halves, l>>
state == <<registered, counts, notes, handler, counter, halves>>

Empty == /\ registered = << >>
         /\ counts = [c \in Components |-> 0]
         /\ notes = << >>
         /\ handler = "none"
         /\ counter = [f \in Fields |-> "0"]
         /\ halves = 0
Init == Empty /\ l = 1

Begin ==
    /\ IsEvent("begin")
    /\ Check("counters start at zero", Ev.initial, [j \in 1..Len(Ev.initial) |-> "0"])
    /\ registered' = << >> /\ counts' = [c \in Components |-> 0] /\ notes' = << >> /\ handler' = "none"
    /\ counter' = [f \in Fields |-> "0"] /\ halves' = 0

Register ==
    /\ IsEvent("register")
    /\ registered' = IF Ev.c = 0 \/ (\E j \in 1..Len(registered) : registered[j] = Ev.c) THEN registered ELSE Append(registered, Ev.c)
    /\ Check("components", Ev.components, registered')
    /\ UNCHANGED <<counts, notes, handler, counter, halves>>

Count == IsEvent("count") /\ counts' = [counts EXCEPT ![Ev.c] = @ + Ev.by] /\ UNCHANGED <<registered, notes, handler, counter, halves>>

IdText(id) == CASE id[1] = "numbered" -> "_" \o id[2]
                [] id[1] = "named" -> id[2]
                [] id[1] = "unnamed" -> "unnamed"
Rendered(n) ==
    (IF n.level # "important" /\ n.component # "" THEN n.component \o ": " ELSE "")
        \o n.text
        \o (IF n.about[1] # "none" THEN " (" \o IdText(n.about) \o ")" ELSE "")

Report ==
    /\ IsEvent("report")
    /\ Check("rendered", Ev.rendered, Rendered(Ev.note))
    /\ Check("heard", Ev.heard, IF handler = "recording" THEN << Ev.note >> ELSE << >>)
    /\ Check("heard before it is kept", Ev.heard_at, IF handler = "recording" THEN << Len(notes) >> ELSE << >>)
    /\ Check("stderr", Ev.stderr, IF handler \in DOMAIN Level /\ Level[Ev.note.level] >= Level[handler] THEN << Rendered(Ev.note) >> ELSE << >>)
    /\ notes' = Append(notes, Ev.note)
    /\ Check("notes", Ev.notes, notes')
    /\ UNCHANGED <<registered, counts, handler, counter, halves>>

Handler == IsEvent("handler") /\ handler' = Ev.kind /\ UNCHANGED <<registered, counts, notes, counter, halves>>
Set == IsEvent("set") /\ counter' = [counter EXCEPT ![Ev.field] = Ev.value] /\ UNCHANGED <<registered, counts, notes, handler, halves>>
Time == IsEvent("time") /\ halves' = Ev.halves /\ UNCHANGED <<registered, counts, notes, handler, counter>>

Summary(c) == IF counts[c] = 0 THEN "nothing" ELSE ToString(counts[c]) \o " things"
Seconds == ToString(halves \div 2) \o (IF halves % 2 = 1 THEN ".5" ELSE "")
NotesSaid == SelectSeq(notes, LAMBDA n : Level[n.level] >= Level["general"])
Report0 ==
    << "propagators: " \o counter["n_propagators"] >>
    \o (IF counter["idempotence_downgrades"] # "0" THEN << "idempotence downgrades: " \o counter["idempotence_downgrades"] >> ELSE << >>)
    \o << "recursions: " \o counter["recursions"],
          "failures: " \o counter["failures"],
          "propagations: " \o counter["propagations"] \o " " \o counter["effectful_propagations"] \o " " \o counter["contradicting_propagations"],
          "max depth:  " \o counter["max_depth"],
          "restarts: " \o counter["restarts"],
          "learned nogoods: " \o counter["learned_nogoods"],
          "solutions: " \o counter["solutions"],
          "solve time: " \o Seconds \o "s" >>
    \o [j \in 1..Len(registered) |-> "component_" \o ToString((registered[j] - 1) % 3) \o ": " \o Summary(registered[j])]
    \o [j \in 1..Len(NotesSaid) |-> Rendered(NotesSaid[j])]
Printed ==
    /\ IsEvent("print")
    /\ Check("printed", Ev.lines, Report0)
    /\ Check("formatted", Ev.formatted, Report0)
    /\ Check("returns its stream", Ev.chained, TRUE)
    /\ Check("entries", Ev.entries, [j \in 1..Len(registered) |-> <<"count", counts[registered[j]]>>])
    /\ UNCHANGED state

\* Constraint identities.
IdTextual == IsEvent("idtext") /\ Check("text", Ev.text, IdText(Ev.a)) /\ Check("formatted", Ev.formatted, IdText(Ev.a)) /\ UNCHANGED state
IdCompared ==
    /\ IsEvent("idcmp")
    /\ Check("equal", Ev.eq, Ev.a = Ev.b)
    /\ Holds("order", (Ev.eq => ~ Ev.lt /\ ~ Ev.gt) /\ (~ Ev.eq => (Ev.lt # Ev.gt)))
    /\ Holds("hash", Ev.eq => Ev.hash)
    /\ UNCHANGED state

Derived ==
    /\ IsEvent("derived")
    /\ Check("starts at zero", Ev.zero, <<0, 0, 0, 0>>)
    /\ Check("entries", Ev.got, Ev.before \o << <<Ev.prefix \o "constraints", Ev.values[1]>>, <<Ev.prefix \o "donors", Ev.values[2]>>,
                                                <<Ev.prefix \o "capacity_rows", Ev.values[3]>>, <<Ev.prefix \o "makespan_bounds_posted", Ev.values[4]>> >>)
    /\ UNCHANGED state

Next == Begin \/ Register \/ Count \/ Report \/ Handler \/ Set \/ Time \/ Printed \/ IdTextual \/ IdCompared \/ Derived
Spec == Init /\ [][Next]_vars

OnceEach == Cardinality({registered[j] : j \in 1..Len(registered)}) = Len(registered)
=============================================================================
