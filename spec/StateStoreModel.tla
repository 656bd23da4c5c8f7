----------------------------- MODULE StateStoreModel -----------------------------
(* Every history of a small store: two variables, two save points.           *)
EXTENDS StateStore

CONSTANT Saves
Terms == {<<1, 1, 0>>, <<1, -1, 1>>, <<2, -1, 2>>}
Ops == {"eq", "ne", "lt", "ge", "in", "notin"}

Init ==
    /\ doms = <<0..2, 0..0>> /\ dead = FALSE /\ guesses = <<>> /\ extras = <<>> /\ states = <<0>> /\ hooks = <<>> /\ saved = <<>>

Next ==
    \/ \E t \in Terms, op \in Ops, a \in -1..2 : \E b \in IF op \in {"in", "notin"} THEN a..(a + 1) ELSE {0} :
         \/ Infer(t, op, a, b)
         \/ Len(guesses) < 1 /\ t[2] = -1 /\ op \in {"ne", "ge"} /\ a = 1 /\ Guess(t, op, a, b)
    \/ Len(saved) < Saves /\ \E w \in BOOLEAN : Save(w)
    \/ \E k \in 1..2 : Return(k)
    \/ Len(hooks) < 1 /\ AddHook(Len(saved))
    \/ states[1] = 0 /\ Change(1, 1)
    \/ Len(extras) < 1 /\ saved = <<>> /\ Extra(<<1, 1, 0>>, "ge", 1, 0)

Spec == Init /\ [][Next]_store

\* A store never holds an empty set, and within a save point it only shrinks.
NeverEmpty == \A i \in 1..2 : doms[i] # {}
Shrinking == \A k \in 1..Len(saved) : \A i \in 1..2 : doms[i] \subseteq saved[k].doms[i]
\* What was decided holds, until it is returned from.
Decided == \A g \in 1..Len(guesses) : Truth(Values(guesses[g][1]), guesses[g][2], guesses[g][3], guesses[g][4]) = "true"
\* Save points grow in every respect.
Nested == \A j, k \in 1..Len(saved) : j <= k => saved[j].guesses <= saved[k].guesses /\ \A i \in 1..2 : saved[k].doms[i] \subseteq saved[j].doms[i]
\* A return gives back what was saved, and runs what was added since.
Restores == [][Len(saved') < Len(saved) => \E k \in 1..Len(saved) : doms' = saved[k].doms /\ states' = saved[k].states /\ hooks' = saved[k].hooks /\ Len(guesses') = saved[k].guesses]_store
\* Reports are in step with how much changed.
ReportsAgree == \A t \in Terms, op \in Ops, a \in -2..3 :
    LET S == Values(t) k == Kept(S, op, a, a + 1) r == Report(S, k)
    IN  /\ (r = "none") = (Truth(S, op, a, a + 1) = "true")
        /\ (r = "contradiction") = (Truth(S, op, a, a + 1) = "false")
=============================================================================
