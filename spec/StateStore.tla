------------------------------ MODULE StateStore ------------------------------
(* The store of domains: what each variable may still be, the decisions      *)
(* taken, and the save points it can return to. A term is a variable, its    *)
(* shifted or negated view, or a constant: <<v, c, o>> is c*v + o, or o.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

VARIABLES
    doms,    \* the set of values of each variable
    dead,    \* a contradiction was met, and only a return helps
    guesses, \* the decisions taken, in order
    extras,  \* conditions assumed besides, for a search within the search
    states,  \* what constraints keep
    hooks,   \* what is to run when returning beyond now
    saved    \* the save points, oldest first

store == <<doms, dead, guesses, extras, states, hooks, saved>>

ValuesIn(ds, t) == IF t[1] = 0 THEN {t[3]} ELSE {t[2] * x + t[3] : x \in ds[t[1]]}
Values(t) == ValuesIn(doms, t)

Allows(op, a, b, x) ==
    CASE op = "eq" -> x = a
      [] op = "ne" -> x # a
      [] op = "lt" -> x < a
      [] op = "ge" -> x >= a
      [] op = "in" -> a <= x /\ x <= b
      [] op = "notin" -> ~(a <= x /\ x <= b)

Kept(S, op, a, b) == {x \in S : Allows(op, a, b, x)}

\* What an inference says it has done to a set.
Report(S, new) ==
    IF new = {} THEN "contradiction"
    ELSE IF new = S THEN "none"
    ELSE IF Cardinality(new) = 1 THEN "instantiated"
    ELSE IF Min(new) # Min(S) \/ Max(new) # Max(S) THEN "bounds"
    ELSE "interior"

Narrow(t, op, a, b) ==
    LET new == Kept(Values(t), op, a, b)
    IN  IF new = {} THEN dead' = TRUE /\ UNCHANGED doms
        ELSE /\ dead' = FALSE
             /\ doms' = IF t[1] = 0 THEN doms ELSE [doms EXCEPT ![t[1]] = {x \in @ : (t[2] * x + t[3]) \in new}]

Infer(t, op, a, b) == ~dead /\ Narrow(t, op, a, b) /\ UNCHANGED <<guesses, extras, states, hooks, saved>>

Guess(t, op, a, b) ==
    /\ ~dead
    /\ Narrow(t, op, a, b)
    /\ guesses' = IF dead' THEN guesses ELSE Append(guesses, <<t, op, a, b>>)
    /\ UNCHANGED <<extras, states, hooks, saved>>

Extra(t, op, a, b) == extras' = Append(extras, <<t, op, a, b>>) /\ UNCHANGED <<doms, dead, guesses, states, hooks, saved>>

\* Conditions assumed besides outlive a return, except to where a search
\* within the search began.
Save(within) ==
    /\ ~dead
    /\ saved' = Append(saved, [doms |-> doms, guesses |-> Len(guesses), states |-> states, hooks |-> hooks,
                               extras |-> IF within THEN Len(extras) ELSE -1])
    /\ hooks' = <<>>
    /\ UNCHANGED <<doms, dead, guesses, extras, states>>

\* Innermost first, and each save point's own in the order they were added.
ToRun(k) ==
    FoldLeft(LAMBDA r, i : r \o (IF i = Len(saved) THEN hooks ELSE saved[i + 1].hooks), <<>>, [j \in 1..(Len(saved) - k + 1) |-> Len(saved) - j + 1])

Return(k) ==
    /\ k \in 1..Len(saved)
    /\ doms' = saved[k].doms /\ dead' = FALSE /\ states' = saved[k].states /\ hooks' = saved[k].hooks
    /\ guesses' = SubSeq(guesses, 1, saved[k].guesses)
    /\ extras' = IF saved[k].extras < 0 THEN extras ELSE SubSeq(extras, 1, saved[k].extras)
    /\ saved' = SubSeq(saved, 1, k - 1)

AddHook(n) == hooks' = Append(hooks, n) /\ UNCHANGED <<doms, dead, guesses, extras, states, saved>>
AddState(x) == states' = Append(states, x) /\ UNCHANGED <<doms, dead, guesses, extras, hooks, saved>>
Change(h, x) == states' = [states EXCEPT ![h] = x] /\ UNCHANGED <<doms, dead, guesses, extras, hooks, saved>>

Truth(S, op, a, b) ==
    LET k == Kept(S, op, a, b) IN IF k = S THEN "true" ELSE IF k = {} THEN "false" ELSE "undecided"
=============================================================================
