------------------------- MODULE IntervalSetTrace -------------------------
(* Histories of operations on interval sets against IntervalSets. Values are *)
(* written relative to the base of the session, which may be an extreme of  *)
(* the number type.                                                          *)
EXTENDS IntervalSets, TraceBase

Init == ISInit /\ l = 1

Becomes == Check("intervals", Ev.now, Runs(sets'[Ev.r]))

TBegin == IsEvent("begin") /\ sets' = [r \in 1..3 |-> {}]
TOp ==
    /\ IsEvent("op")
    /\ CASE Ev.op = "empty" -> Empty(Ev.r)
         [] Ev.op = "range" -> FromTo(Ev.r, Ev.a, Ev.b)
         [] Ev.op = "copy" -> Copy(Ev.r, Ev.q)
         [] Ev.op = "move" -> Move(Ev.r, Ev.q)
         [] Ev.op = "erase" -> Erase(Ev.r, Ev.a)
         [] Ev.op = "erase_range" -> EraseRange(Ev.r, Ev.a, Ev.b)
         [] Ev.op = "erase_less_than" -> EraseLess(Ev.r, Ev.a)
         [] Ev.op = "erase_greater_than" -> EraseGreater(Ev.r, Ev.a)
         [] Ev.op = "insert" -> Insert(Ev.r, Ev.a)
         [] Ev.op = "insert_range" -> InsertRange(Ev.r, Ev.a, Ev.b)
         [] Ev.op = "intersect" -> Intersect(Ev.r, Ev.q)
         [] Ev.op = "clear" -> Empty(Ev.r)
    /\ Becomes

TSee ==
    /\ IsEvent("see")
    /\ UNCHANGED sets
    /\ \E S \in {sets[Ev.r]} : \E o \in {Ordered(S)} : \E g \in {Missing(S)} :
        /\ Check("empty", Ev.empty, S = {})
        /\ Check("size", Ev.size, Cardinality(S))
        /\ Check("has_holes", Ev.holes, g # {})
        /\ IF S = {} THEN TRUE ELSE Check("lower", Ev.lower, Min(S)) /\ Check("upper", Ev.upper, Max(S))
        /\ Check("contains", ToSet(Ev.has), S \intersect (Ev.from..Ev.to))
        /\ Check("each", Ev.each, o)
        /\ Check("for_each", Ev.for_each, o)
        /\ Check("for_each that stops", Ev.stopping, IF Ev.stop < Len(o) THEN SubSeq(o, 1, Ev.stop) ELSE o)
        /\ Check("each_reversed", Ev.reversed, Reverse(o))
        /\ Check("each_gap", Ev.gaps, Ordered(g))
        /\ Check("each_gap_interval", Ev.gap_intervals, [i \in 1..Len(Runs(g)) |-> <<Runs(g)[i][1], Runs(g)[i][2] + 1>>])

TCompare ==
    /\ IsEvent("compare")
    /\ UNCHANGED sets
    /\ Check("contains_any_of", Ev.any, sets[Ev.r] \intersect sets[Ev.q] # {})
    /\ Check("each_interval_minus", Ev.minus, Runs(sets[Ev.r] \ sets[Ev.q]))

Next == TBegin \/ TOp \/ TSee \/ TCompare
Spec == Init /\ [][Next]_<<sets, l>>
===========================================================================
