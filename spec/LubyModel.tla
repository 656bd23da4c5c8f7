----------------------------- MODULE LubyModel -----------------------------
(* The machine produces the textbook sequence.                               *)
EXTENDS Luby
VARIABLE i
CONSTANT MaxI
Init == LubyInit /\ i = 1
Next == i < MaxI /\ i' = i + 1 /\ LubyStep
Spec == Init /\ [][Next]_<<u, v, i>>
Agrees == v = LubyTerm(i)
=============================================================================
