--------------------------- MODULE ArrayParamTrace ---------------------------
(* Array parameters as references to storages.  A storage is alive while     *)
(* somebody refers to it: parameters that own or share it, outside holders   *)
(* that share it, or the outside object itself when parameters borrow it.    *)
(* The trace shows, after each operation, which storage every parameter and  *)
(* holder sees with what content, which storages exist, and how many copies  *)
(* of data were made.                                                        *)
EXTENDS TraceBase, FiniteSets

Slots == 1..4
Holders == 1..2

VARIABLES
    slot,      \* storage each parameter refers to, 0 for none
    shared,    \* storage each outside shared holder refers to
    own,       \* storage that is each outside object
    content    \* storage -> content, for storages that exist
vars == <<slot, shared, own, content, l>>

Zeros(S) == [x \in S |-> 0]
Nothing == /\ slot = Zeros(Slots) /\ shared = Zeros(Holders) /\ own = Zeros(Holders) /\ content = << >>
Init == Nothing /\ l = 1

Refs(sl, sh, ow) == ({sl[x] : x \in Slots} \cup {sh[x] : x \in Holders} \cup {ow[x] : x \in Holders}) \ {0}
Range1(s) == {s[i] : i \in 1..Len(s)}
At(st, c) == IF st = 0 THEN << >> ELSE c[st]

\* Everything visible after the step agrees with the new state.
Seen(sl, sh, ow, c, copies) ==
    /\ \A x \in Slots : Check(<<"parameter", x>>, Ev.slots[x], <<sl[x], At(sl[x], c)>>)
    /\ \A x \in Holders : Check(<<"shared holder", x>>, Ev.shared[x], <<sh[x], At(sh[x], c)>>)
    /\ \A x \in Holders : Check(<<"outside object", x>>, Ev.own[x], <<ow[x], At(ow[x], c)>>)
    /\ Check("storages that exist", Range1(Ev.live), Refs(sl, sh, ow))
    /\ Check("number of storages", Len(Ev.live), Cardinality(Refs(sl, sh, ow)))
    /\ Check("copies made", Ev.copies, copies)

Become(sl, sh, ow, c, copies) ==
    LET live == Refs(sl, sh, ow)
        kept == TLCEval([x \in live |-> c[x]])
    IN  /\ Seen(sl, sh, ow, kept, copies)
        /\ slot' = sl /\ shared' = sh /\ own' = ow /\ content' = kept

With(c, st, v) == TLCEval([x \in (DOMAIN c) \cup {st} |-> IF x = st THEN v ELSE c[x]])

Fresh(st) == Holds("a storage of its own", st > 0 /\ st \notin DOMAIN content)

Begin == IsEvent("begin") /\ Become(Zeros(Slots), Zeros(Holders), Zeros(Holders), << >>, 0)
End == IsEvent("end") /\ Become(Zeros(Slots), Zeros(Holders), Zeros(Holders), << >>, 0)

\* A parameter that owns its data: moved in, listed, or copied from outside.
Owned(e, v, copies) ==
    /\ IsEvent(e)
    /\ LET st == Ev.slots[Ev.s][1]
       IN  /\ Fresh(st)
           /\ Become([slot EXCEPT ![Ev.s] = st], shared, own, With(content, st, v), copies)
Moved == Owned("moved", Ev.c, 0)
Listed == Owned("list", Ev.c, 0)
Copied == Owned("copied", content[own[Ev.h]], 1)

\* Outside objects and outside shared holders.
Hold ==
    /\ IsEvent("hold")
    /\ LET st == Ev.own[Ev.h][1]
           gone == own[Ev.h]
       IN  /\ Fresh(st)
           \* whoever borrowed the old object was dropped first
           /\ Become([x \in Slots |-> IF gone # 0 /\ slot[x] = gone THEN 0 ELSE slot[x]], shared, [own EXCEPT ![Ev.h] = st], With(content, st, Ev.c), 0)
Share ==
    /\ IsEvent("share")
    /\ LET st == Ev.shared[Ev.h][1]
       IN  Fresh(st) /\ Become(slot, [shared EXCEPT ![Ev.h] = st], own, With(content, st, Ev.c), 0)
Unshare == IsEvent("unshare") /\ Become(slot, [shared EXCEPT ![Ev.h] = 0], own, content, 0)
Write == IsEvent("write") /\ Become(slot, shared, own, With(content, own[Ev.h], Ev.c), 0)

\* Parameters that refer to what already exists.
FromShared == IsEvent("fromshared") /\ Become([slot EXCEPT ![Ev.s] = shared[Ev.h]], shared, own, content, 0)
Borrow == IsEvent("borrow") /\ Become([slot EXCEPT ![Ev.s] = own[Ev.h]], shared, own, content, 0)
Copy == IsEvent("copy") /\ Become([slot EXCEPT ![Ev.t] = slot[Ev.s]], shared, own, content, 0)
Move == IsEvent("move") /\ Become([slot EXCEPT ![Ev.t] = slot[Ev.s], ![Ev.s] = 0], shared, own, content, 0)
Drop == IsEvent("drop") /\ Become([slot EXCEPT ![Ev.s] = 0], shared, own, content, 0)

Tuples == IsEvent("tuples") /\ Check("tuples", Ev.got, Ev.want) /\ UNCHANGED <<slot, shared, own, content>>

Next == Begin \/ End \/ Moved \/ Listed \/ Copied \/ Hold \/ Share \/ Unshare \/ Write \/ FromShared \/ Borrow \/ Copy \/ Move \/ Drop \/ Tuples
Spec == Init /\ [][Next]_vars

\* No dangling reference, nothing kept for nobody.
Exact == DOMAIN content = Refs(slot, shared, own)
=============================================================================
