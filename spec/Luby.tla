-------------------------------- MODULE Luby -------------------------------
(* The Luby sequence, as Knuth's reluctant doubling machine: a pair (u, v),  *)
(* whose second component runs through 1 1 2 1 1 2 4 ...                     *)
(*   (1, 1);  (u, v) -> (u + 1, 1) if u & -u = v, else (u, 2v).              *)
EXTENDS Integers, Sequences, TLC, LubySeq

VARIABLES u, v

RECURSIVE LowBit(_)
LowBit(n) == IF n % 2 = 1 THEN 1 ELSE 2 * LowBit(n \div 2)

LubyInit == u = 1 /\ v = 1
LubyStep == IF LowBit(u) = v THEN u' = u + 1 /\ v' = 1 ELSE u' = u /\ v' = 2 * v
=============================================================================
