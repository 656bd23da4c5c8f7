------------------------- MODULE IntervalTreeTrace -------------------------
EXTENDS IntervalTree, TraceBase

Init == ITInit /\ l = 1

TBegin == IsEvent("begin") /\ stored' = {}
TInsert == IsEvent("insert") /\ Insert(Ev.lo, Ev.hi)
TQuery ==
    /\ IsEvent("query")
    /\ Holds("containing", Lists(Ev.containing, Containing(Ev.lo, Ev.hi)))
    /\ Holds("contained", Lists(Ev.contained, ContainedIn(Ev.lo, Ev.hi)))
    /\ UNCHANGED stored

Next == TBegin \/ TInsert \/ TQuery
Spec == Init /\ [][Next]_<<stored, l>>
=============================================================================
